extern "C" __attribute__((visibility("default"))) int not_a_plugin() { return 1; }
