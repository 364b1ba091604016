// Stand-in for the AMD cpuid library: a generic machine with AVX2.
#pragma once
namespace Au {
enum class EUarch { Unknown, Zen, ZenPlus, Zen2, Zen3, Zen4, Zen5, Zen6 };
enum class ECpuidFlag { avx2, avx512f, avx512dq, avx512vl, avx512ifma, avx512cd, avx512bw, avx512vbmi, avx512_4vnniw, avx512_vpopcntdq, avx512_fp16 };
class X86Cpu {
  public:
    X86Cpu(int) {}
    bool isAMD() { return false; }
    EUarch getUarch() { return EUarch::Unknown; }
    bool hasFlag(ECpuidFlag f) { return f == ECpuidFlag::avx2; }
};
} // namespace Au
