// Linked into the server image: runs its static constructors and main on demand.
typedef void (*ctor)();
extern ctor __start_ysim_init[] __attribute__((weak));
extern ctor __stop_ysim_init[] __attribute__((weak));
extern int ysim_repo_main(int, char**);
extern "C" __attribute__((visibility("default"))) int ysim_node_start(int argc, char** argv) {
    for (ctor* p = __start_ysim_init; p != __stop_ysim_init; ++p) (*p)();
    return ysim_repo_main(argc, argv);
}
