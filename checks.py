import props
COMMON_ASSUME = ['sizes and offsets are below 2^40; objects are disjoint and below 2^61',
                 'LP64 little-endian target, C++17, IR of clang 18 at -O1 without optimisation passes other than sroa/early-cse/simplifycfg',
                 'models of memcpy, memmove, memset, memcmp, memchr, strlen, malloc/free, operator new/delete and exception throwing are those in engine/intrin.py']
CHECKS = {}
for p in props.PROPS:
    if not p['na']:
        CHECKS[p['id']] = p
