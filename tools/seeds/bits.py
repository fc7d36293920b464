H = '#include "common/src/bit_manip.cpp"\n#include <rofl/common/morton_sort.h>\n#include <cstdio>\nusing namespace rofl;\n'
B = "common/src/bit_manip.cpp"
N = "common/include/rofl/common/numeric_traits.h"
M = "common/include/rofl/common/morton_sort.h"
SEEDS = [
 dict(id="C01-clp2-64-missing-fold", property="C01", needs="a 64-bit word above 2^32 whose predecessor has no set bit in the low half next to the smeared run",
      breaks="clp2u64 is not a power of two for some words above 2^32",
      edits=[(B, "        x = x | (x >> 8);\n        x = x | (x >> 16);\n        x = x | (x >> 32);\n        return x + 1;", "        x = x | (x >> 16);\n        x = x | (x >> 8);\n        x = x | (x >> 24);\n        return x + 1;")],
      demo=H + 'int main(){ return clp2u64((1ull<<62)+1)==(1ull<<63) ? 0 : 1; }\n'),
 dict(id="C01-nlz16-byte", property="C01", needs="a 16-bit word with its top bit in bits 8..11",
      breaks="nlz16 is one byte off because the shifted word is kept in a narrower variable",
      edits=[(B, "    int16_t nlz16(uint16_t x) {\n        uint16_t y;\n        int n;\n\n        n = 16;\n        y = x >> 8;\n        if (y != 0) {\n            n = n - 8;\n            x = y;\n        }\n        y = x >> 4;\n        if (y != 0) {", "    int16_t nlz16(uint16_t x) {\n        uint16_t y;\n        int n;\n\n        n = 16;\n        y = x >> 8;\n        if (y > 1) {\n            n = n - 8;\n            x = y;\n        }\n        y = (x >> 4) & 0x0F;\n        if (y != 0) {")],
      demo=H + 'int main(){ for(unsigned x=1;x<65536;++x){int n=0;for(int b=15;b>=0&&!((x>>b)&1);--b)++n; if(nlz16(x)!=n) return 1;} return 0; }\n'),
 dict(id="C02-set-double-bias", property="C02", needs="a double with a negative unbiased exponent of magnitude beyond the mantissa",
      breaks="composing subnormal or tiny doubles sets the sign bit from the exponent",
      edits=[(B, "floatBits.i = (0x000FFFFFFFFFFFFF & m) | ((e + 1023) << 52) | ((int64_t) s << 63);", "floatBits.i = (0x000FFFFFFFFFFFFF & m) | (((e < -1022 ? -1022 : e) + 1023) << 52) | ((int64_t) s << 63);")],
      demo=H + 'int main(){ int64_t m,e; bool s; double d=5e-324; getMantissaExpSignD(d,m,e,s); return setMantissaExpSignD(m,e,s)==d ? 0 : 1; }\n'),
 dict(id="C03-ceil-neg16", property="C03", needs="a negative 16-bit value that is not a power of two",
      breaks="ceilPow2 of a negative number rounds away from zero",
      edits=[(N, "            return -flp2u16((UnsignedType)(-i));", "            return -clp2u16((UnsignedType)(-i));")],
      demo=H + 'int main(){ return ceilPow2<int16_t>(-5)==-4 ? 0 : 1; }\n'),
 dict(id="C04-msb-ge", property="C04", needs="vectors whose first differing bit is at the same height in two dimensions",
      breaks="ties between dimensions are resolved towards the last dimension, so the order disagrees with the bit interleaving",
      edits=[(M, "    return (i1 < i2 && i1 < (i1 ^ i2));", "    return (i1 <= i2 && i1 <= (i1 ^ i2) && i1 != i2) || (i1 < i2 && (i1 & i2) == (i1 & ~Integer(1)));")],
      demo=H + 'int main(){ uint8_t a[2]={4,1},b[2]={1,4}; (void)a; for(int i=0;i<256;++i)for(int j=0;j<256;++j){int li=-1,lj=-1;for(int k=0;k<8;++k){if((i>>k)&1)li=k;if((j>>k)&1)lj=k;} if(msb<uint8_t>(i,j)!=(li<lj)) return 1;} return 0; }\n'),
 dict(id="C04-signed-cmp", property="C04", needs="three or more dimensions with the decisive dimension in the middle",
      breaks="the running largest xor is not updated, so a later, less significant dimension decides",
      edits=[(M, "            lastDim = d;\n            lastXor = currXor;\n", "            lastDim = d;\n            lastXor = (d == 1 ? lastXor : currXor);\n")],
      demo=H + 'int main(){ int a[3]={0,0,2},b[3]={1,8,0}; return mortonCmpInt<int,3>(a,b) ? 0 : 1; }\n'),
 dict(id="C05-split-tie", property="C05", needs="two dimensions with the same level",
      breaks="on a tie the last dimension is split, which disagrees with the Morton comparison",
      edits=[(M, "        level = intervalPow2Int(v1[d], v2[d], low[d], mid[d], upp[d]);\n        if (level > levelSplit) {", "        level = intervalPow2Int(v1[d], v2[d], low[d], mid[d], upp[d]);\n        if (level > 0 && level >= levelSplit) {")],
      demo=H + 'int main(){ int a[2]={0,0},b[2]={3,2},l[2],m[2],u[2]; mortonSplitInt<int,2>(a,b,l,m,u); return m[0]==2&&m[1]==0 ? 0 : 1; }\n'),
]
