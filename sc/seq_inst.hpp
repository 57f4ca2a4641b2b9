// one instantiation of the sequence scenarios per translation unit
#include "seq.hpp"
using namespace sim;
#define SEQ_FLEX(T, MP, ...)                                                   \
    using inst = SeqScenario<immer::flex_vector<T, MP, ##__VA_ARGS__>,         \
                             SeqKindFlex, MP,                                  \
                             immer::vector<T, MP, ##__VA_ARGS__>>;
#define SEQ_VEC(T, MP, ...)                                                    \
    using inst = SeqScenario<immer::vector<T, MP, ##__VA_ARGS__>,              \
                             SeqKindVector, MP>;
#define SEQ_ARR(T, MP)                                                         \
    using inst = SeqScenario<immer::array<T, MP>, SeqKindArray, MP>;
#define CAT2(a, b) a##b
#define CAT1(a, b) CAT2(a, b)
#define SCN(name, focus, threads, maxn)                                        \
    static Reg<inst> CAT1(reg_, __LINE__)("seq." name, focus, threads, maxn);
