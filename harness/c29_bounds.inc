{"block", "bidirectional", {7.8, 9.1, 2.0, 28.0}},
{"block", "forward", {7.8, 9.1, 2.0, 28.0}},
{"block", "random-access", {7.8, 9.1, 1.4, 28.0}},
{"dis", "bidirectional", {12.1, 24.1, 9.2, 16.0}},
{"dis", "forward", {4.1, 8.1, 7.3, 0.0}},
{"dis", "random-access", {12.1, 24.1, 6.2, 16.0}},
{"dis, no memory", "bidirectional", {4.1, 8.1, 7.3, 0.0}},
{"dis, no memory", "random-access", {4.1, 8.1, 6.2, 0.0}},
{"enc", "bidirectional", {1.6, 2.0, 0.8, 24.0}},
{"enc", "forward", {1.6, 2.0, 0.8, 24.0}},
{"enc", "random-access", {1.6, 2.0, 0.8, 24.0}},
{"exc", "bidirectional", {7.9, 9.2, 0.0, 28.0}},
{"exc", "forward", {7.9, 9.2, 0.0, 28.0}},
{"exc", "random-access", {7.9, 9.2, 1.4, 28.0}},
{"ham", "bidirectional", {4.9, 6.3, 2.0, 16.0}},
{"ham", "forward", {5.1, 6.5, 2.0, 16.0}},
{"ham", "random-access", {4.9, 6.4, 1.4, 16.0}},
{"inv", "bidirectional", {2.1, 4.1, 1.4, 32.0}},
{"inv", "forward", {2.1, 4.1, 1.4, 32.0}},
{"inv", "random-access", {2.1, 4.1, 0.8, 32.0}},
{"max", "bidirectional", {7.9, 9.2, 2.0, 16.0}},
{"max", "forward", {7.9, 9.2, 2.0, 16.0}},
{"max", "random-access", {8.0, 9.1, 1.4, 16.0}},
{"mono", "bidirectional", {4.1, 8.1, 3.3, 0.0}},
{"mono", "forward", {4.1, 8.1, 3.3, 0.0}},
{"mono", "random-access", {4.1, 8.1, 3.3, 0.0}},
{"mono, no memory", "forward", {4.1, 8.1, 3.3, 0.0}},
{"osc", "bidirectional", {8.7, 10.7, 2.6, 32.0}},
{"osc", "forward", {8.7, 10.7, 2.6, 32.0}},
{"osc", "random-access", {8.7, 10.5, 2.0, 32.0}},
{"osc, no memory", "forward", {7.1, 7.1, 6.3, 0.0}},
{"rem", "bidirectional", {1.9, 2.0, 0.8, 48.0}},
{"rem", "forward", {1.9, 2.0, 0.8, 48.0}},
{"rem", "random-access", {1.9, 2.0, 0.8, 48.0}},
{"runs", "bidirectional", {2.1, 4.1, 6.2, 0.0}},
{"runs", "forward", {2.1, 4.1, 6.2, 0.0}},
{"runs", "random-access", {2.1, 4.1, 6.2, 0.0}},
{"runs, no memory", "forward", {2.1, 4.1, 6.2, 0.0}},
{"sus", "bidirectional", {1.9, 2.0, 0.8, 48.0}},
{"sus", "forward", {1.9, 2.0, 0.8, 48.0}},
{"sus", "random-access", {1.9, 2.0, 0.8, 48.0}},
