// binds the kernel to the scheduler; included after the kernel source (one translation unit)
#undef one
#undef zero
#undef clamp
#undef ncorr
extern "C" char __start_cushared[] __attribute__((weak));
extern "C" char __stop_cushared[] __attribute__((weak));

namespace emu {
template <typename... A> struct Call {
    template <typename F, size_t... I>
    static void go(F f, void** p, std::index_sequence<I...>)
    { f(*reinterpret_cast<typename std::remove_const<A>::type*>(p[I])...); }
};
template <typename... A> static void invoke(void (*f)(A...), void** p)
{ Call<A...>::go(f, p, std::index_sequence_for<A...>()); }
}

extern "C" const char* emu_launch(const unsigned* grid, const unsigned* block,
                                  void** args, int reversed, int rotate,
                                  long* count, char* stack_space)
{
    return emu::launch(
        grid, block, args, reversed, rotate, count, stack_space,
        [](void** p) { emu::invoke(EMU_KERNEL, p); }, __start_cushared,
        __start_cushared ? __stop_cushared - __start_cushared : 0);
}
