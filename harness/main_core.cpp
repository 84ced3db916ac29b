// Entry point for workloads that only need the core library.
int hx_main(int argc, char** argv);
void harness_prepare() {}
int main(int argc, char** argv) { return hx_main(argc, argv); }
