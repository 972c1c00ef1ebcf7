// Stand-in for AOCL-Utils' Au::X86Cpu, which is not installed here: reports the
// CPU as a non-Zen x86 part, with the flags the real CPU has.
#ifndef VERIF_AU_X86CPU
#define VERIF_AU_X86CPU
namespace Au {
enum class EUarch { Unknown, Zen, ZenPlus, Zen2, Zen3, Zen4, Zen5, Zen6 };
enum class ECpuidFlag {
    avx2, avx512f, avx512dq, avx512vl, avx512ifma, avx512cd, avx512bw, avx512vbmi,
    avx512_4vnniw, avx512_vpopcntdq, avx512_fp16
};
struct X86Cpu {
    int num;
    EUarch getUarch() const { return EUarch::Unknown; }
    bool isAMD() const { return false; }
    bool hasFlag(ECpuidFlag f) const {
        __builtin_cpu_init();
        switch (f) {
        case ECpuidFlag::avx2: return __builtin_cpu_supports("avx2");
        case ECpuidFlag::avx512f: return __builtin_cpu_supports("avx512f");
        case ECpuidFlag::avx512dq: return __builtin_cpu_supports("avx512dq");
        case ECpuidFlag::avx512vl: return __builtin_cpu_supports("avx512vl");
        case ECpuidFlag::avx512cd: return __builtin_cpu_supports("avx512cd");
        case ECpuidFlag::avx512bw: return __builtin_cpu_supports("avx512bw");
        default: return false;
        }
    }
};
} // namespace Au
#endif
