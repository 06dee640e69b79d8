// generated by tools/gen_reflbits.py
using BL_uint8_0_m0 = BitMemberDecl<0, 1>;
using BL_uint8_0_m1 = BitMemberDecl<1, 4>;
using BL_uint8_0_m2 = BitMemberDecl<2, 3>;
using BL_uint8_0 = BitFieldType<uint8, BL_uint8_0_m0, BL_uint8_0_m1, BL_uint8_0_m2>;
REFLECTOR_CREATE(BL_uint8_0, BITFIELD, 1, VARNAMES, BL_uint8_0_m0, BL_uint8_0_m1, BL_uint8_0_m2)
using BL_uint8_1_m0 = BitMemberDecl<0, 2>;
using BL_uint8_1_m1 = BitMemberDecl<1, 3>;
using BL_uint8_1_m2 = BitMemberDecl<2, 3>;
using BL_uint8_1 = BitFieldType<uint8, BL_uint8_1_m0, BL_uint8_1_m1, BL_uint8_1_m2>;
REFLECTOR_CREATE(BL_uint8_1, BITFIELD, 1, VARNAMES, BL_uint8_1_m0, BL_uint8_1_m1, BL_uint8_1_m2)
using BL_uint8_2_m0 = BitMemberDecl<0, 3>;
using BL_uint8_2_m1 = BitMemberDecl<1, 3>;
using BL_uint8_2_m2 = BitMemberDecl<2, 2>;
using BL_uint8_2 = BitFieldType<uint8, BL_uint8_2_m0, BL_uint8_2_m1, BL_uint8_2_m2>;
REFLECTOR_CREATE(BL_uint8_2, BITFIELD, 1, VARNAMES, BL_uint8_2_m0, BL_uint8_2_m1, BL_uint8_2_m2)
using BL_uint8_3_m0 = BitMemberDecl<0, 4>;
using BL_uint8_3_m1 = BitMemberDecl<1, 2>;
using BL_uint8_3_m2 = BitMemberDecl<2, 2>;
using BL_uint8_3 = BitFieldType<uint8, BL_uint8_3_m0, BL_uint8_3_m1, BL_uint8_3_m2>;
REFLECTOR_CREATE(BL_uint8_3, BITFIELD, 1, VARNAMES, BL_uint8_3_m0, BL_uint8_3_m1, BL_uint8_3_m2)
using BL_uint8_4_m0 = BitMemberDecl<0, 5>;
using BL_uint8_4_m1 = BitMemberDecl<1, 3>;
using BL_uint8_4 = BitFieldType<uint8, BL_uint8_4_m0, BL_uint8_4_m1>;
REFLECTOR_CREATE(BL_uint8_4, BITFIELD, 1, VARNAMES, BL_uint8_4_m0, BL_uint8_4_m1)
using BL_uint8_5_m0 = BitMemberDecl<0, 2>;
using BL_uint8_5_m1 = BitMemberDecl<1, 6>;
using BL_uint8_5 = BitFieldType<uint8, BL_uint8_5_m0, BL_uint8_5_m1>;
REFLECTOR_CREATE(BL_uint8_5, BITFIELD, 1, VARNAMES, BL_uint8_5_m0, BL_uint8_5_m1)
using BL_uint8_6_m0 = BitMemberDecl<0, 7>;
using BL_uint8_6_m1 = BitMemberDecl<1, 1>;
using BL_uint8_6 = BitFieldType<uint8, BL_uint8_6_m0, BL_uint8_6_m1>;
REFLECTOR_CREATE(BL_uint8_6, BITFIELD, 1, VARNAMES, BL_uint8_6_m0, BL_uint8_6_m1)
using BL_uint8_7_m0 = BitMemberDecl<0, 3>;
using BL_uint8_7_m1 = BitMemberDecl<1, 2>;
using BL_uint8_7 = BitFieldType<uint8, BL_uint8_7_m0, BL_uint8_7_m1>;
REFLECTOR_CREATE(BL_uint8_7, BITFIELD, 1, VARNAMES, BL_uint8_7_m0, BL_uint8_7_m1)
using BL_uint16_0_m0 = BitMemberDecl<0, 1>;
using BL_uint16_0_m1 = BitMemberDecl<1, 8>;
using BL_uint16_0_m2 = BitMemberDecl<2, 7>;
using BL_uint16_0 = BitFieldType<uint16, BL_uint16_0_m0, BL_uint16_0_m1, BL_uint16_0_m2>;
REFLECTOR_CREATE(BL_uint16_0, BITFIELD, 1, VARNAMES, BL_uint16_0_m0, BL_uint16_0_m1, BL_uint16_0_m2)
using BL_uint16_1_m0 = BitMemberDecl<0, 2>;
using BL_uint16_1_m1 = BitMemberDecl<1, 7>;
using BL_uint16_1_m2 = BitMemberDecl<2, 7>;
using BL_uint16_1 = BitFieldType<uint16, BL_uint16_1_m0, BL_uint16_1_m1, BL_uint16_1_m2>;
REFLECTOR_CREATE(BL_uint16_1, BITFIELD, 1, VARNAMES, BL_uint16_1_m0, BL_uint16_1_m1, BL_uint16_1_m2)
using BL_uint16_2_m0 = BitMemberDecl<0, 3>;
using BL_uint16_2_m1 = BitMemberDecl<1, 7>;
using BL_uint16_2_m2 = BitMemberDecl<2, 6>;
using BL_uint16_2 = BitFieldType<uint16, BL_uint16_2_m0, BL_uint16_2_m1, BL_uint16_2_m2>;
REFLECTOR_CREATE(BL_uint16_2, BITFIELD, 1, VARNAMES, BL_uint16_2_m0, BL_uint16_2_m1, BL_uint16_2_m2)
using BL_uint16_3_m0 = BitMemberDecl<0, 4>;
using BL_uint16_3_m1 = BitMemberDecl<1, 6>;
using BL_uint16_3_m2 = BitMemberDecl<2, 6>;
using BL_uint16_3 = BitFieldType<uint16, BL_uint16_3_m0, BL_uint16_3_m1, BL_uint16_3_m2>;
REFLECTOR_CREATE(BL_uint16_3, BITFIELD, 1, VARNAMES, BL_uint16_3_m0, BL_uint16_3_m1, BL_uint16_3_m2)
using BL_uint16_4_m0 = BitMemberDecl<0, 5>;
using BL_uint16_4_m1 = BitMemberDecl<1, 6>;
using BL_uint16_4_m2 = BitMemberDecl<2, 5>;
using BL_uint16_4 = BitFieldType<uint16, BL_uint16_4_m0, BL_uint16_4_m1, BL_uint16_4_m2>;
REFLECTOR_CREATE(BL_uint16_4, BITFIELD, 1, VARNAMES, BL_uint16_4_m0, BL_uint16_4_m1, BL_uint16_4_m2)
using BL_uint16_5_m0 = BitMemberDecl<0, 6>;
using BL_uint16_5_m1 = BitMemberDecl<1, 5>;
using BL_uint16_5_m2 = BitMemberDecl<2, 5>;
using BL_uint16_5 = BitFieldType<uint16, BL_uint16_5_m0, BL_uint16_5_m1, BL_uint16_5_m2>;
REFLECTOR_CREATE(BL_uint16_5, BITFIELD, 1, VARNAMES, BL_uint16_5_m0, BL_uint16_5_m1, BL_uint16_5_m2)
using BL_uint16_6_m0 = BitMemberDecl<0, 7>;
using BL_uint16_6_m1 = BitMemberDecl<1, 5>;
using BL_uint16_6_m2 = BitMemberDecl<2, 4>;
using BL_uint16_6 = BitFieldType<uint16, BL_uint16_6_m0, BL_uint16_6_m1, BL_uint16_6_m2>;
REFLECTOR_CREATE(BL_uint16_6, BITFIELD, 1, VARNAMES, BL_uint16_6_m0, BL_uint16_6_m1, BL_uint16_6_m2)
using BL_uint16_7_m0 = BitMemberDecl<0, 8>;
using BL_uint16_7_m1 = BitMemberDecl<1, 4>;
using BL_uint16_7_m2 = BitMemberDecl<2, 4>;
using BL_uint16_7 = BitFieldType<uint16, BL_uint16_7_m0, BL_uint16_7_m1, BL_uint16_7_m2>;
REFLECTOR_CREATE(BL_uint16_7, BITFIELD, 1, VARNAMES, BL_uint16_7_m0, BL_uint16_7_m1, BL_uint16_7_m2)
using BL_uint16_8_m0 = BitMemberDecl<0, 9>;
using BL_uint16_8_m1 = BitMemberDecl<1, 7>;
using BL_uint16_8 = BitFieldType<uint16, BL_uint16_8_m0, BL_uint16_8_m1>;
REFLECTOR_CREATE(BL_uint16_8, BITFIELD, 1, VARNAMES, BL_uint16_8_m0, BL_uint16_8_m1)
using BL_uint16_9_m0 = BitMemberDecl<0, 6>;
using BL_uint16_9_m1 = BitMemberDecl<1, 10>;
using BL_uint16_9 = BitFieldType<uint16, BL_uint16_9_m0, BL_uint16_9_m1>;
REFLECTOR_CREATE(BL_uint16_9, BITFIELD, 1, VARNAMES, BL_uint16_9_m0, BL_uint16_9_m1)
using BL_uint16_10_m0 = BitMemberDecl<0, 11>;
using BL_uint16_10_m1 = BitMemberDecl<1, 5>;
using BL_uint16_10 = BitFieldType<uint16, BL_uint16_10_m0, BL_uint16_10_m1>;
REFLECTOR_CREATE(BL_uint16_10, BITFIELD, 1, VARNAMES, BL_uint16_10_m0, BL_uint16_10_m1)
using BL_uint16_11_m0 = BitMemberDecl<0, 4>;
using BL_uint16_11_m1 = BitMemberDecl<1, 12>;
using BL_uint16_11 = BitFieldType<uint16, BL_uint16_11_m0, BL_uint16_11_m1>;
REFLECTOR_CREATE(BL_uint16_11, BITFIELD, 1, VARNAMES, BL_uint16_11_m0, BL_uint16_11_m1)
using BL_uint16_12_m0 = BitMemberDecl<0, 13>;
using BL_uint16_12_m1 = BitMemberDecl<1, 3>;
using BL_uint16_12 = BitFieldType<uint16, BL_uint16_12_m0, BL_uint16_12_m1>;
REFLECTOR_CREATE(BL_uint16_12, BITFIELD, 1, VARNAMES, BL_uint16_12_m0, BL_uint16_12_m1)
using BL_uint16_13_m0 = BitMemberDecl<0, 2>;
using BL_uint16_13_m1 = BitMemberDecl<1, 14>;
using BL_uint16_13 = BitFieldType<uint16, BL_uint16_13_m0, BL_uint16_13_m1>;
REFLECTOR_CREATE(BL_uint16_13, BITFIELD, 1, VARNAMES, BL_uint16_13_m0, BL_uint16_13_m1)
using BL_uint16_14_m0 = BitMemberDecl<0, 15>;
using BL_uint16_14_m1 = BitMemberDecl<1, 1>;
using BL_uint16_14 = BitFieldType<uint16, BL_uint16_14_m0, BL_uint16_14_m1>;
REFLECTOR_CREATE(BL_uint16_14, BITFIELD, 1, VARNAMES, BL_uint16_14_m0, BL_uint16_14_m1)
using BL_uint16_15_m0 = BitMemberDecl<0, 5>;
using BL_uint16_15_m1 = BitMemberDecl<1, 5>;
using BL_uint16_15 = BitFieldType<uint16, BL_uint16_15_m0, BL_uint16_15_m1>;
REFLECTOR_CREATE(BL_uint16_15, BITFIELD, 1, VARNAMES, BL_uint16_15_m0, BL_uint16_15_m1)
using BL_uint32_0_m0 = BitMemberDecl<0, 1>;
using BL_uint32_0_m1 = BitMemberDecl<1, 16>;
using BL_uint32_0_m2 = BitMemberDecl<2, 15>;
using BL_uint32_0 = BitFieldType<uint32, BL_uint32_0_m0, BL_uint32_0_m1, BL_uint32_0_m2>;
REFLECTOR_CREATE(BL_uint32_0, BITFIELD, 1, VARNAMES, BL_uint32_0_m0, BL_uint32_0_m1, BL_uint32_0_m2)
using BL_uint32_1_m0 = BitMemberDecl<0, 2>;
using BL_uint32_1_m1 = BitMemberDecl<1, 15>;
using BL_uint32_1_m2 = BitMemberDecl<2, 15>;
using BL_uint32_1 = BitFieldType<uint32, BL_uint32_1_m0, BL_uint32_1_m1, BL_uint32_1_m2>;
REFLECTOR_CREATE(BL_uint32_1, BITFIELD, 1, VARNAMES, BL_uint32_1_m0, BL_uint32_1_m1, BL_uint32_1_m2)
using BL_uint32_2_m0 = BitMemberDecl<0, 3>;
using BL_uint32_2_m1 = BitMemberDecl<1, 15>;
using BL_uint32_2_m2 = BitMemberDecl<2, 14>;
using BL_uint32_2 = BitFieldType<uint32, BL_uint32_2_m0, BL_uint32_2_m1, BL_uint32_2_m2>;
REFLECTOR_CREATE(BL_uint32_2, BITFIELD, 1, VARNAMES, BL_uint32_2_m0, BL_uint32_2_m1, BL_uint32_2_m2)
using BL_uint32_3_m0 = BitMemberDecl<0, 4>;
using BL_uint32_3_m1 = BitMemberDecl<1, 14>;
using BL_uint32_3_m2 = BitMemberDecl<2, 14>;
using BL_uint32_3 = BitFieldType<uint32, BL_uint32_3_m0, BL_uint32_3_m1, BL_uint32_3_m2>;
REFLECTOR_CREATE(BL_uint32_3, BITFIELD, 1, VARNAMES, BL_uint32_3_m0, BL_uint32_3_m1, BL_uint32_3_m2)
using BL_uint32_4_m0 = BitMemberDecl<0, 5>;
using BL_uint32_4_m1 = BitMemberDecl<1, 14>;
using BL_uint32_4_m2 = BitMemberDecl<2, 13>;
using BL_uint32_4 = BitFieldType<uint32, BL_uint32_4_m0, BL_uint32_4_m1, BL_uint32_4_m2>;
REFLECTOR_CREATE(BL_uint32_4, BITFIELD, 1, VARNAMES, BL_uint32_4_m0, BL_uint32_4_m1, BL_uint32_4_m2)
using BL_uint32_5_m0 = BitMemberDecl<0, 6>;
using BL_uint32_5_m1 = BitMemberDecl<1, 13>;
using BL_uint32_5_m2 = BitMemberDecl<2, 13>;
using BL_uint32_5 = BitFieldType<uint32, BL_uint32_5_m0, BL_uint32_5_m1, BL_uint32_5_m2>;
REFLECTOR_CREATE(BL_uint32_5, BITFIELD, 1, VARNAMES, BL_uint32_5_m0, BL_uint32_5_m1, BL_uint32_5_m2)
using BL_uint32_6_m0 = BitMemberDecl<0, 7>;
using BL_uint32_6_m1 = BitMemberDecl<1, 13>;
using BL_uint32_6_m2 = BitMemberDecl<2, 12>;
using BL_uint32_6 = BitFieldType<uint32, BL_uint32_6_m0, BL_uint32_6_m1, BL_uint32_6_m2>;
REFLECTOR_CREATE(BL_uint32_6, BITFIELD, 1, VARNAMES, BL_uint32_6_m0, BL_uint32_6_m1, BL_uint32_6_m2)
using BL_uint32_7_m0 = BitMemberDecl<0, 8>;
using BL_uint32_7_m1 = BitMemberDecl<1, 12>;
using BL_uint32_7_m2 = BitMemberDecl<2, 12>;
using BL_uint32_7 = BitFieldType<uint32, BL_uint32_7_m0, BL_uint32_7_m1, BL_uint32_7_m2>;
REFLECTOR_CREATE(BL_uint32_7, BITFIELD, 1, VARNAMES, BL_uint32_7_m0, BL_uint32_7_m1, BL_uint32_7_m2)
using BL_uint32_8_m0 = BitMemberDecl<0, 9>;
using BL_uint32_8_m1 = BitMemberDecl<1, 12>;
using BL_uint32_8_m2 = BitMemberDecl<2, 11>;
using BL_uint32_8 = BitFieldType<uint32, BL_uint32_8_m0, BL_uint32_8_m1, BL_uint32_8_m2>;
REFLECTOR_CREATE(BL_uint32_8, BITFIELD, 1, VARNAMES, BL_uint32_8_m0, BL_uint32_8_m1, BL_uint32_8_m2)
using BL_uint32_9_m0 = BitMemberDecl<0, 15>;
using BL_uint32_9_m1 = BitMemberDecl<1, 9>;
using BL_uint32_9_m2 = BitMemberDecl<2, 8>;
using BL_uint32_9 = BitFieldType<uint32, BL_uint32_9_m0, BL_uint32_9_m1, BL_uint32_9_m2>;
REFLECTOR_CREATE(BL_uint32_9, BITFIELD, 1, VARNAMES, BL_uint32_9_m0, BL_uint32_9_m1, BL_uint32_9_m2)
using BL_uint32_10_m0 = BitMemberDecl<0, 16>;
using BL_uint32_10_m1 = BitMemberDecl<1, 8>;
using BL_uint32_10_m2 = BitMemberDecl<2, 8>;
using BL_uint32_10 = BitFieldType<uint32, BL_uint32_10_m0, BL_uint32_10_m1, BL_uint32_10_m2>;
REFLECTOR_CREATE(BL_uint32_10, BITFIELD, 1, VARNAMES, BL_uint32_10_m0, BL_uint32_10_m1, BL_uint32_10_m2)
using BL_uint32_11_m0 = BitMemberDecl<0, 17>;
using BL_uint32_11_m1 = BitMemberDecl<1, 15>;
using BL_uint32_11 = BitFieldType<uint32, BL_uint32_11_m0, BL_uint32_11_m1>;
REFLECTOR_CREATE(BL_uint32_11, BITFIELD, 1, VARNAMES, BL_uint32_11_m0, BL_uint32_11_m1)
using BL_uint32_12_m0 = BitMemberDecl<0, 23>;
using BL_uint32_12_m1 = BitMemberDecl<1, 9>;
using BL_uint32_12 = BitFieldType<uint32, BL_uint32_12_m0, BL_uint32_12_m1>;
REFLECTOR_CREATE(BL_uint32_12, BITFIELD, 1, VARNAMES, BL_uint32_12_m0, BL_uint32_12_m1)
using BL_uint32_13_m0 = BitMemberDecl<0, 8>;
using BL_uint32_13_m1 = BitMemberDecl<1, 24>;
using BL_uint32_13 = BitFieldType<uint32, BL_uint32_13_m0, BL_uint32_13_m1>;
REFLECTOR_CREATE(BL_uint32_13, BITFIELD, 1, VARNAMES, BL_uint32_13_m0, BL_uint32_13_m1)
using BL_uint32_14_m0 = BitMemberDecl<0, 25>;
using BL_uint32_14_m1 = BitMemberDecl<1, 7>;
using BL_uint32_14 = BitFieldType<uint32, BL_uint32_14_m0, BL_uint32_14_m1>;
REFLECTOR_CREATE(BL_uint32_14, BITFIELD, 1, VARNAMES, BL_uint32_14_m0, BL_uint32_14_m1)
using BL_uint32_15_m0 = BitMemberDecl<0, 29>;
using BL_uint32_15_m1 = BitMemberDecl<1, 3>;
using BL_uint32_15 = BitFieldType<uint32, BL_uint32_15_m0, BL_uint32_15_m1>;
REFLECTOR_CREATE(BL_uint32_15, BITFIELD, 1, VARNAMES, BL_uint32_15_m0, BL_uint32_15_m1)
using BL_uint32_16_m0 = BitMemberDecl<0, 2>;
using BL_uint32_16_m1 = BitMemberDecl<1, 30>;
using BL_uint32_16 = BitFieldType<uint32, BL_uint32_16_m0, BL_uint32_16_m1>;
REFLECTOR_CREATE(BL_uint32_16, BITFIELD, 1, VARNAMES, BL_uint32_16_m0, BL_uint32_16_m1)
using BL_uint32_17_m0 = BitMemberDecl<0, 31>;
using BL_uint32_17_m1 = BitMemberDecl<1, 1>;
using BL_uint32_17 = BitFieldType<uint32, BL_uint32_17_m0, BL_uint32_17_m1>;
REFLECTOR_CREATE(BL_uint32_17, BITFIELD, 1, VARNAMES, BL_uint32_17_m0, BL_uint32_17_m1)
using BL_uint32_18_m0 = BitMemberDecl<0, 5>;
using BL_uint32_18_m1 = BitMemberDecl<1, 13>;
using BL_uint32_18 = BitFieldType<uint32, BL_uint32_18_m0, BL_uint32_18_m1>;
REFLECTOR_CREATE(BL_uint32_18, BITFIELD, 1, VARNAMES, BL_uint32_18_m0, BL_uint32_18_m1)
using BL_uint64_0_m0 = BitMemberDecl<0, 1>;
using BL_uint64_0_m1 = BitMemberDecl<1, 32>;
using BL_uint64_0_m2 = BitMemberDecl<2, 31>;
using BL_uint64_0 = BitFieldType<uint64, BL_uint64_0_m0, BL_uint64_0_m1, BL_uint64_0_m2>;
REFLECTOR_CREATE(BL_uint64_0, BITFIELD, 1, VARNAMES, BL_uint64_0_m0, BL_uint64_0_m1, BL_uint64_0_m2)
using BL_uint64_1_m0 = BitMemberDecl<0, 2>;
using BL_uint64_1_m1 = BitMemberDecl<1, 31>;
using BL_uint64_1_m2 = BitMemberDecl<2, 31>;
using BL_uint64_1 = BitFieldType<uint64, BL_uint64_1_m0, BL_uint64_1_m1, BL_uint64_1_m2>;
REFLECTOR_CREATE(BL_uint64_1, BITFIELD, 1, VARNAMES, BL_uint64_1_m0, BL_uint64_1_m1, BL_uint64_1_m2)
using BL_uint64_2_m0 = BitMemberDecl<0, 3>;
using BL_uint64_2_m1 = BitMemberDecl<1, 31>;
using BL_uint64_2_m2 = BitMemberDecl<2, 30>;
using BL_uint64_2 = BitFieldType<uint64, BL_uint64_2_m0, BL_uint64_2_m1, BL_uint64_2_m2>;
REFLECTOR_CREATE(BL_uint64_2, BITFIELD, 1, VARNAMES, BL_uint64_2_m0, BL_uint64_2_m1, BL_uint64_2_m2)
using BL_uint64_3_m0 = BitMemberDecl<0, 4>;
using BL_uint64_3_m1 = BitMemberDecl<1, 30>;
using BL_uint64_3_m2 = BitMemberDecl<2, 30>;
using BL_uint64_3 = BitFieldType<uint64, BL_uint64_3_m0, BL_uint64_3_m1, BL_uint64_3_m2>;
REFLECTOR_CREATE(BL_uint64_3, BITFIELD, 1, VARNAMES, BL_uint64_3_m0, BL_uint64_3_m1, BL_uint64_3_m2)
using BL_uint64_4_m0 = BitMemberDecl<0, 5>;
using BL_uint64_4_m1 = BitMemberDecl<1, 30>;
using BL_uint64_4_m2 = BitMemberDecl<2, 29>;
using BL_uint64_4 = BitFieldType<uint64, BL_uint64_4_m0, BL_uint64_4_m1, BL_uint64_4_m2>;
REFLECTOR_CREATE(BL_uint64_4, BITFIELD, 1, VARNAMES, BL_uint64_4_m0, BL_uint64_4_m1, BL_uint64_4_m2)
using BL_uint64_5_m0 = BitMemberDecl<0, 6>;
using BL_uint64_5_m1 = BitMemberDecl<1, 29>;
using BL_uint64_5_m2 = BitMemberDecl<2, 29>;
using BL_uint64_5 = BitFieldType<uint64, BL_uint64_5_m0, BL_uint64_5_m1, BL_uint64_5_m2>;
REFLECTOR_CREATE(BL_uint64_5, BITFIELD, 1, VARNAMES, BL_uint64_5_m0, BL_uint64_5_m1, BL_uint64_5_m2)
using BL_uint64_6_m0 = BitMemberDecl<0, 7>;
using BL_uint64_6_m1 = BitMemberDecl<1, 29>;
using BL_uint64_6_m2 = BitMemberDecl<2, 28>;
using BL_uint64_6 = BitFieldType<uint64, BL_uint64_6_m0, BL_uint64_6_m1, BL_uint64_6_m2>;
REFLECTOR_CREATE(BL_uint64_6, BITFIELD, 1, VARNAMES, BL_uint64_6_m0, BL_uint64_6_m1, BL_uint64_6_m2)
using BL_uint64_7_m0 = BitMemberDecl<0, 8>;
using BL_uint64_7_m1 = BitMemberDecl<1, 28>;
using BL_uint64_7_m2 = BitMemberDecl<2, 28>;
using BL_uint64_7 = BitFieldType<uint64, BL_uint64_7_m0, BL_uint64_7_m1, BL_uint64_7_m2>;
REFLECTOR_CREATE(BL_uint64_7, BITFIELD, 1, VARNAMES, BL_uint64_7_m0, BL_uint64_7_m1, BL_uint64_7_m2)
using BL_uint64_8_m0 = BitMemberDecl<0, 9>;
using BL_uint64_8_m1 = BitMemberDecl<1, 28>;
using BL_uint64_8_m2 = BitMemberDecl<2, 27>;
using BL_uint64_8 = BitFieldType<uint64, BL_uint64_8_m0, BL_uint64_8_m1, BL_uint64_8_m2>;
REFLECTOR_CREATE(BL_uint64_8, BITFIELD, 1, VARNAMES, BL_uint64_8_m0, BL_uint64_8_m1, BL_uint64_8_m2)
using BL_uint64_9_m0 = BitMemberDecl<0, 15>;
using BL_uint64_9_m1 = BitMemberDecl<1, 25>;
using BL_uint64_9_m2 = BitMemberDecl<2, 24>;
using BL_uint64_9 = BitFieldType<uint64, BL_uint64_9_m0, BL_uint64_9_m1, BL_uint64_9_m2>;
REFLECTOR_CREATE(BL_uint64_9, BITFIELD, 1, VARNAMES, BL_uint64_9_m0, BL_uint64_9_m1, BL_uint64_9_m2)
using BL_uint64_10_m0 = BitMemberDecl<0, 16>;
using BL_uint64_10_m1 = BitMemberDecl<1, 24>;
using BL_uint64_10_m2 = BitMemberDecl<2, 24>;
using BL_uint64_10 = BitFieldType<uint64, BL_uint64_10_m0, BL_uint64_10_m1, BL_uint64_10_m2>;
REFLECTOR_CREATE(BL_uint64_10, BITFIELD, 1, VARNAMES, BL_uint64_10_m0, BL_uint64_10_m1, BL_uint64_10_m2)
using BL_uint64_11_m0 = BitMemberDecl<0, 17>;
using BL_uint64_11_m1 = BitMemberDecl<1, 24>;
using BL_uint64_11_m2 = BitMemberDecl<2, 23>;
using BL_uint64_11 = BitFieldType<uint64, BL_uint64_11_m0, BL_uint64_11_m1, BL_uint64_11_m2>;
REFLECTOR_CREATE(BL_uint64_11, BITFIELD, 1, VARNAMES, BL_uint64_11_m0, BL_uint64_11_m1, BL_uint64_11_m2)
using BL_uint64_12_m0 = BitMemberDecl<0, 23>;
using BL_uint64_12_m1 = BitMemberDecl<1, 21>;
using BL_uint64_12_m2 = BitMemberDecl<2, 20>;
using BL_uint64_12 = BitFieldType<uint64, BL_uint64_12_m0, BL_uint64_12_m1, BL_uint64_12_m2>;
REFLECTOR_CREATE(BL_uint64_12, BITFIELD, 1, VARNAMES, BL_uint64_12_m0, BL_uint64_12_m1, BL_uint64_12_m2)
using BL_uint64_13_m0 = BitMemberDecl<0, 24>;
using BL_uint64_13_m1 = BitMemberDecl<1, 20>;
using BL_uint64_13_m2 = BitMemberDecl<2, 20>;
using BL_uint64_13 = BitFieldType<uint64, BL_uint64_13_m0, BL_uint64_13_m1, BL_uint64_13_m2>;
REFLECTOR_CREATE(BL_uint64_13, BITFIELD, 1, VARNAMES, BL_uint64_13_m0, BL_uint64_13_m1, BL_uint64_13_m2)
using BL_uint64_14_m0 = BitMemberDecl<0, 25>;
using BL_uint64_14_m1 = BitMemberDecl<1, 20>;
using BL_uint64_14_m2 = BitMemberDecl<2, 19>;
using BL_uint64_14 = BitFieldType<uint64, BL_uint64_14_m0, BL_uint64_14_m1, BL_uint64_14_m2>;
REFLECTOR_CREATE(BL_uint64_14, BITFIELD, 1, VARNAMES, BL_uint64_14_m0, BL_uint64_14_m1, BL_uint64_14_m2)
using BL_uint64_15_m0 = BitMemberDecl<0, 31>;
using BL_uint64_15_m1 = BitMemberDecl<1, 17>;
using BL_uint64_15_m2 = BitMemberDecl<2, 16>;
using BL_uint64_15 = BitFieldType<uint64, BL_uint64_15_m0, BL_uint64_15_m1, BL_uint64_15_m2>;
REFLECTOR_CREATE(BL_uint64_15, BITFIELD, 1, VARNAMES, BL_uint64_15_m0, BL_uint64_15_m1, BL_uint64_15_m2)
using BL_uint64_16_m0 = BitMemberDecl<0, 32>;
using BL_uint64_16_m1 = BitMemberDecl<1, 16>;
using BL_uint64_16_m2 = BitMemberDecl<2, 16>;
using BL_uint64_16 = BitFieldType<uint64, BL_uint64_16_m0, BL_uint64_16_m1, BL_uint64_16_m2>;
REFLECTOR_CREATE(BL_uint64_16, BITFIELD, 1, VARNAMES, BL_uint64_16_m0, BL_uint64_16_m1, BL_uint64_16_m2)
using BL_uint64_17_m0 = BitMemberDecl<0, 33>;
using BL_uint64_17_m1 = BitMemberDecl<1, 31>;
using BL_uint64_17 = BitFieldType<uint64, BL_uint64_17_m0, BL_uint64_17_m1>;
REFLECTOR_CREATE(BL_uint64_17, BITFIELD, 1, VARNAMES, BL_uint64_17_m0, BL_uint64_17_m1)
using BL_uint64_18_m0 = BitMemberDecl<0, 39>;
using BL_uint64_18_m1 = BitMemberDecl<1, 25>;
using BL_uint64_18 = BitFieldType<uint64, BL_uint64_18_m0, BL_uint64_18_m1>;
REFLECTOR_CREATE(BL_uint64_18, BITFIELD, 1, VARNAMES, BL_uint64_18_m0, BL_uint64_18_m1)
using BL_uint64_19_m0 = BitMemberDecl<0, 24>;
using BL_uint64_19_m1 = BitMemberDecl<1, 40>;
using BL_uint64_19 = BitFieldType<uint64, BL_uint64_19_m0, BL_uint64_19_m1>;
REFLECTOR_CREATE(BL_uint64_19, BITFIELD, 1, VARNAMES, BL_uint64_19_m0, BL_uint64_19_m1)
using BL_uint64_20_m0 = BitMemberDecl<0, 41>;
using BL_uint64_20_m1 = BitMemberDecl<1, 23>;
using BL_uint64_20 = BitFieldType<uint64, BL_uint64_20_m0, BL_uint64_20_m1>;
REFLECTOR_CREATE(BL_uint64_20, BITFIELD, 1, VARNAMES, BL_uint64_20_m0, BL_uint64_20_m1)
using BL_uint64_21_m0 = BitMemberDecl<0, 47>;
using BL_uint64_21_m1 = BitMemberDecl<1, 17>;
using BL_uint64_21 = BitFieldType<uint64, BL_uint64_21_m0, BL_uint64_21_m1>;
REFLECTOR_CREATE(BL_uint64_21, BITFIELD, 1, VARNAMES, BL_uint64_21_m0, BL_uint64_21_m1)
using BL_uint64_22_m0 = BitMemberDecl<0, 16>;
using BL_uint64_22_m1 = BitMemberDecl<1, 48>;
using BL_uint64_22 = BitFieldType<uint64, BL_uint64_22_m0, BL_uint64_22_m1>;
REFLECTOR_CREATE(BL_uint64_22, BITFIELD, 1, VARNAMES, BL_uint64_22_m0, BL_uint64_22_m1)
using BL_uint64_23_m0 = BitMemberDecl<0, 49>;
using BL_uint64_23_m1 = BitMemberDecl<1, 15>;
using BL_uint64_23 = BitFieldType<uint64, BL_uint64_23_m0, BL_uint64_23_m1>;
REFLECTOR_CREATE(BL_uint64_23, BITFIELD, 1, VARNAMES, BL_uint64_23_m0, BL_uint64_23_m1)
using BL_uint64_24_m0 = BitMemberDecl<0, 55>;
using BL_uint64_24_m1 = BitMemberDecl<1, 9>;
using BL_uint64_24 = BitFieldType<uint64, BL_uint64_24_m0, BL_uint64_24_m1>;
REFLECTOR_CREATE(BL_uint64_24, BITFIELD, 1, VARNAMES, BL_uint64_24_m0, BL_uint64_24_m1)
using BL_uint64_25_m0 = BitMemberDecl<0, 8>;
using BL_uint64_25_m1 = BitMemberDecl<1, 56>;
using BL_uint64_25 = BitFieldType<uint64, BL_uint64_25_m0, BL_uint64_25_m1>;
REFLECTOR_CREATE(BL_uint64_25, BITFIELD, 1, VARNAMES, BL_uint64_25_m0, BL_uint64_25_m1)
using BL_uint64_26_m0 = BitMemberDecl<0, 57>;
using BL_uint64_26_m1 = BitMemberDecl<1, 7>;
using BL_uint64_26 = BitFieldType<uint64, BL_uint64_26_m0, BL_uint64_26_m1>;
REFLECTOR_CREATE(BL_uint64_26, BITFIELD, 1, VARNAMES, BL_uint64_26_m0, BL_uint64_26_m1)
using BL_uint64_27_m0 = BitMemberDecl<0, 61>;
using BL_uint64_27_m1 = BitMemberDecl<1, 3>;
using BL_uint64_27 = BitFieldType<uint64, BL_uint64_27_m0, BL_uint64_27_m1>;
REFLECTOR_CREATE(BL_uint64_27, BITFIELD, 1, VARNAMES, BL_uint64_27_m0, BL_uint64_27_m1)
using BL_uint64_28_m0 = BitMemberDecl<0, 2>;
using BL_uint64_28_m1 = BitMemberDecl<1, 62>;
using BL_uint64_28 = BitFieldType<uint64, BL_uint64_28_m0, BL_uint64_28_m1>;
REFLECTOR_CREATE(BL_uint64_28, BITFIELD, 1, VARNAMES, BL_uint64_28_m0, BL_uint64_28_m1)
using BL_uint64_29_m0 = BitMemberDecl<0, 63>;
using BL_uint64_29_m1 = BitMemberDecl<1, 1>;
using BL_uint64_29 = BitFieldType<uint64, BL_uint64_29_m0, BL_uint64_29_m1>;
REFLECTOR_CREATE(BL_uint64_29, BITFIELD, 1, VARNAMES, BL_uint64_29_m0, BL_uint64_29_m1)
using BL_uint64_30_m0 = BitMemberDecl<0, 5>;
using BL_uint64_30_m1 = BitMemberDecl<1, 29>;
using BL_uint64_30 = BitFieldType<uint64, BL_uint64_30_m0, BL_uint64_30_m1>;
REFLECTOR_CREATE(BL_uint64_30, BITFIELD, 1, VARNAMES, BL_uint64_30_m0, BL_uint64_30_m1)
using BL_int8_0_m0 = BitMemberDecl<0, 1>;
using BL_int8_0_m1 = BitMemberDecl<1, 4>;
using BL_int8_0_m2 = BitMemberDecl<2, 3>;
using BL_int8_0 = BitFieldType<int8, BL_int8_0_m0, BL_int8_0_m1, BL_int8_0_m2>;
REFLECTOR_CREATE(BL_int8_0, BITFIELD, 1, VARNAMES, BL_int8_0_m0, BL_int8_0_m1, BL_int8_0_m2)
using BL_int8_1_m0 = BitMemberDecl<0, 2>;
using BL_int8_1_m1 = BitMemberDecl<1, 3>;
using BL_int8_1_m2 = BitMemberDecl<2, 3>;
using BL_int8_1 = BitFieldType<int8, BL_int8_1_m0, BL_int8_1_m1, BL_int8_1_m2>;
REFLECTOR_CREATE(BL_int8_1, BITFIELD, 1, VARNAMES, BL_int8_1_m0, BL_int8_1_m1, BL_int8_1_m2)
using BL_int8_2_m0 = BitMemberDecl<0, 3>;
using BL_int8_2_m1 = BitMemberDecl<1, 3>;
using BL_int8_2_m2 = BitMemberDecl<2, 2>;
using BL_int8_2 = BitFieldType<int8, BL_int8_2_m0, BL_int8_2_m1, BL_int8_2_m2>;
REFLECTOR_CREATE(BL_int8_2, BITFIELD, 1, VARNAMES, BL_int8_2_m0, BL_int8_2_m1, BL_int8_2_m2)
using BL_int8_3_m0 = BitMemberDecl<0, 4>;
using BL_int8_3_m1 = BitMemberDecl<1, 2>;
using BL_int8_3_m2 = BitMemberDecl<2, 2>;
using BL_int8_3 = BitFieldType<int8, BL_int8_3_m0, BL_int8_3_m1, BL_int8_3_m2>;
REFLECTOR_CREATE(BL_int8_3, BITFIELD, 1, VARNAMES, BL_int8_3_m0, BL_int8_3_m1, BL_int8_3_m2)
using BL_int8_4_m0 = BitMemberDecl<0, 5>;
using BL_int8_4_m1 = BitMemberDecl<1, 3>;
using BL_int8_4 = BitFieldType<int8, BL_int8_4_m0, BL_int8_4_m1>;
REFLECTOR_CREATE(BL_int8_4, BITFIELD, 1, VARNAMES, BL_int8_4_m0, BL_int8_4_m1)
using BL_int8_5_m0 = BitMemberDecl<0, 2>;
using BL_int8_5_m1 = BitMemberDecl<1, 6>;
using BL_int8_5 = BitFieldType<int8, BL_int8_5_m0, BL_int8_5_m1>;
REFLECTOR_CREATE(BL_int8_5, BITFIELD, 1, VARNAMES, BL_int8_5_m0, BL_int8_5_m1)
using BL_int8_6_m0 = BitMemberDecl<0, 7>;
using BL_int8_6_m1 = BitMemberDecl<1, 1>;
using BL_int8_6 = BitFieldType<int8, BL_int8_6_m0, BL_int8_6_m1>;
REFLECTOR_CREATE(BL_int8_6, BITFIELD, 1, VARNAMES, BL_int8_6_m0, BL_int8_6_m1)
using BL_int8_7_m0 = BitMemberDecl<0, 3>;
using BL_int8_7_m1 = BitMemberDecl<1, 2>;
using BL_int8_7 = BitFieldType<int8, BL_int8_7_m0, BL_int8_7_m1>;
REFLECTOR_CREATE(BL_int8_7, BITFIELD, 1, VARNAMES, BL_int8_7_m0, BL_int8_7_m1)
using BL_int16_0_m0 = BitMemberDecl<0, 1>;
using BL_int16_0_m1 = BitMemberDecl<1, 8>;
using BL_int16_0_m2 = BitMemberDecl<2, 7>;
using BL_int16_0 = BitFieldType<int16, BL_int16_0_m0, BL_int16_0_m1, BL_int16_0_m2>;
REFLECTOR_CREATE(BL_int16_0, BITFIELD, 1, VARNAMES, BL_int16_0_m0, BL_int16_0_m1, BL_int16_0_m2)
using BL_int16_1_m0 = BitMemberDecl<0, 2>;
using BL_int16_1_m1 = BitMemberDecl<1, 7>;
using BL_int16_1_m2 = BitMemberDecl<2, 7>;
using BL_int16_1 = BitFieldType<int16, BL_int16_1_m0, BL_int16_1_m1, BL_int16_1_m2>;
REFLECTOR_CREATE(BL_int16_1, BITFIELD, 1, VARNAMES, BL_int16_1_m0, BL_int16_1_m1, BL_int16_1_m2)
using BL_int16_2_m0 = BitMemberDecl<0, 3>;
using BL_int16_2_m1 = BitMemberDecl<1, 7>;
using BL_int16_2_m2 = BitMemberDecl<2, 6>;
using BL_int16_2 = BitFieldType<int16, BL_int16_2_m0, BL_int16_2_m1, BL_int16_2_m2>;
REFLECTOR_CREATE(BL_int16_2, BITFIELD, 1, VARNAMES, BL_int16_2_m0, BL_int16_2_m1, BL_int16_2_m2)
using BL_int16_3_m0 = BitMemberDecl<0, 4>;
using BL_int16_3_m1 = BitMemberDecl<1, 6>;
using BL_int16_3_m2 = BitMemberDecl<2, 6>;
using BL_int16_3 = BitFieldType<int16, BL_int16_3_m0, BL_int16_3_m1, BL_int16_3_m2>;
REFLECTOR_CREATE(BL_int16_3, BITFIELD, 1, VARNAMES, BL_int16_3_m0, BL_int16_3_m1, BL_int16_3_m2)
using BL_int16_4_m0 = BitMemberDecl<0, 5>;
using BL_int16_4_m1 = BitMemberDecl<1, 6>;
using BL_int16_4_m2 = BitMemberDecl<2, 5>;
using BL_int16_4 = BitFieldType<int16, BL_int16_4_m0, BL_int16_4_m1, BL_int16_4_m2>;
REFLECTOR_CREATE(BL_int16_4, BITFIELD, 1, VARNAMES, BL_int16_4_m0, BL_int16_4_m1, BL_int16_4_m2)
using BL_int16_5_m0 = BitMemberDecl<0, 6>;
using BL_int16_5_m1 = BitMemberDecl<1, 5>;
using BL_int16_5_m2 = BitMemberDecl<2, 5>;
using BL_int16_5 = BitFieldType<int16, BL_int16_5_m0, BL_int16_5_m1, BL_int16_5_m2>;
REFLECTOR_CREATE(BL_int16_5, BITFIELD, 1, VARNAMES, BL_int16_5_m0, BL_int16_5_m1, BL_int16_5_m2)
using BL_int16_6_m0 = BitMemberDecl<0, 7>;
using BL_int16_6_m1 = BitMemberDecl<1, 5>;
using BL_int16_6_m2 = BitMemberDecl<2, 4>;
using BL_int16_6 = BitFieldType<int16, BL_int16_6_m0, BL_int16_6_m1, BL_int16_6_m2>;
REFLECTOR_CREATE(BL_int16_6, BITFIELD, 1, VARNAMES, BL_int16_6_m0, BL_int16_6_m1, BL_int16_6_m2)
using BL_int16_7_m0 = BitMemberDecl<0, 8>;
using BL_int16_7_m1 = BitMemberDecl<1, 4>;
using BL_int16_7_m2 = BitMemberDecl<2, 4>;
using BL_int16_7 = BitFieldType<int16, BL_int16_7_m0, BL_int16_7_m1, BL_int16_7_m2>;
REFLECTOR_CREATE(BL_int16_7, BITFIELD, 1, VARNAMES, BL_int16_7_m0, BL_int16_7_m1, BL_int16_7_m2)
using BL_int16_8_m0 = BitMemberDecl<0, 9>;
using BL_int16_8_m1 = BitMemberDecl<1, 7>;
using BL_int16_8 = BitFieldType<int16, BL_int16_8_m0, BL_int16_8_m1>;
REFLECTOR_CREATE(BL_int16_8, BITFIELD, 1, VARNAMES, BL_int16_8_m0, BL_int16_8_m1)
using BL_int16_9_m0 = BitMemberDecl<0, 6>;
using BL_int16_9_m1 = BitMemberDecl<1, 10>;
using BL_int16_9 = BitFieldType<int16, BL_int16_9_m0, BL_int16_9_m1>;
REFLECTOR_CREATE(BL_int16_9, BITFIELD, 1, VARNAMES, BL_int16_9_m0, BL_int16_9_m1)
using BL_int16_10_m0 = BitMemberDecl<0, 11>;
using BL_int16_10_m1 = BitMemberDecl<1, 5>;
using BL_int16_10 = BitFieldType<int16, BL_int16_10_m0, BL_int16_10_m1>;
REFLECTOR_CREATE(BL_int16_10, BITFIELD, 1, VARNAMES, BL_int16_10_m0, BL_int16_10_m1)
using BL_int16_11_m0 = BitMemberDecl<0, 4>;
using BL_int16_11_m1 = BitMemberDecl<1, 12>;
using BL_int16_11 = BitFieldType<int16, BL_int16_11_m0, BL_int16_11_m1>;
REFLECTOR_CREATE(BL_int16_11, BITFIELD, 1, VARNAMES, BL_int16_11_m0, BL_int16_11_m1)
using BL_int16_12_m0 = BitMemberDecl<0, 13>;
using BL_int16_12_m1 = BitMemberDecl<1, 3>;
using BL_int16_12 = BitFieldType<int16, BL_int16_12_m0, BL_int16_12_m1>;
REFLECTOR_CREATE(BL_int16_12, BITFIELD, 1, VARNAMES, BL_int16_12_m0, BL_int16_12_m1)
using BL_int16_13_m0 = BitMemberDecl<0, 2>;
using BL_int16_13_m1 = BitMemberDecl<1, 14>;
using BL_int16_13 = BitFieldType<int16, BL_int16_13_m0, BL_int16_13_m1>;
REFLECTOR_CREATE(BL_int16_13, BITFIELD, 1, VARNAMES, BL_int16_13_m0, BL_int16_13_m1)
using BL_int16_14_m0 = BitMemberDecl<0, 15>;
using BL_int16_14_m1 = BitMemberDecl<1, 1>;
using BL_int16_14 = BitFieldType<int16, BL_int16_14_m0, BL_int16_14_m1>;
REFLECTOR_CREATE(BL_int16_14, BITFIELD, 1, VARNAMES, BL_int16_14_m0, BL_int16_14_m1)
using BL_int16_15_m0 = BitMemberDecl<0, 5>;
using BL_int16_15_m1 = BitMemberDecl<1, 5>;
using BL_int16_15 = BitFieldType<int16, BL_int16_15_m0, BL_int16_15_m1>;
REFLECTOR_CREATE(BL_int16_15, BITFIELD, 1, VARNAMES, BL_int16_15_m0, BL_int16_15_m1)
using BL_int32_0_m0 = BitMemberDecl<0, 1>;
using BL_int32_0_m1 = BitMemberDecl<1, 16>;
using BL_int32_0_m2 = BitMemberDecl<2, 15>;
using BL_int32_0 = BitFieldType<int32, BL_int32_0_m0, BL_int32_0_m1, BL_int32_0_m2>;
REFLECTOR_CREATE(BL_int32_0, BITFIELD, 1, VARNAMES, BL_int32_0_m0, BL_int32_0_m1, BL_int32_0_m2)
using BL_int32_1_m0 = BitMemberDecl<0, 2>;
using BL_int32_1_m1 = BitMemberDecl<1, 15>;
using BL_int32_1_m2 = BitMemberDecl<2, 15>;
using BL_int32_1 = BitFieldType<int32, BL_int32_1_m0, BL_int32_1_m1, BL_int32_1_m2>;
REFLECTOR_CREATE(BL_int32_1, BITFIELD, 1, VARNAMES, BL_int32_1_m0, BL_int32_1_m1, BL_int32_1_m2)
using BL_int32_2_m0 = BitMemberDecl<0, 3>;
using BL_int32_2_m1 = BitMemberDecl<1, 15>;
using BL_int32_2_m2 = BitMemberDecl<2, 14>;
using BL_int32_2 = BitFieldType<int32, BL_int32_2_m0, BL_int32_2_m1, BL_int32_2_m2>;
REFLECTOR_CREATE(BL_int32_2, BITFIELD, 1, VARNAMES, BL_int32_2_m0, BL_int32_2_m1, BL_int32_2_m2)
using BL_int32_3_m0 = BitMemberDecl<0, 4>;
using BL_int32_3_m1 = BitMemberDecl<1, 14>;
using BL_int32_3_m2 = BitMemberDecl<2, 14>;
using BL_int32_3 = BitFieldType<int32, BL_int32_3_m0, BL_int32_3_m1, BL_int32_3_m2>;
REFLECTOR_CREATE(BL_int32_3, BITFIELD, 1, VARNAMES, BL_int32_3_m0, BL_int32_3_m1, BL_int32_3_m2)
using BL_int32_4_m0 = BitMemberDecl<0, 5>;
using BL_int32_4_m1 = BitMemberDecl<1, 14>;
using BL_int32_4_m2 = BitMemberDecl<2, 13>;
using BL_int32_4 = BitFieldType<int32, BL_int32_4_m0, BL_int32_4_m1, BL_int32_4_m2>;
REFLECTOR_CREATE(BL_int32_4, BITFIELD, 1, VARNAMES, BL_int32_4_m0, BL_int32_4_m1, BL_int32_4_m2)
using BL_int32_5_m0 = BitMemberDecl<0, 6>;
using BL_int32_5_m1 = BitMemberDecl<1, 13>;
using BL_int32_5_m2 = BitMemberDecl<2, 13>;
using BL_int32_5 = BitFieldType<int32, BL_int32_5_m0, BL_int32_5_m1, BL_int32_5_m2>;
REFLECTOR_CREATE(BL_int32_5, BITFIELD, 1, VARNAMES, BL_int32_5_m0, BL_int32_5_m1, BL_int32_5_m2)
using BL_int32_6_m0 = BitMemberDecl<0, 7>;
using BL_int32_6_m1 = BitMemberDecl<1, 13>;
using BL_int32_6_m2 = BitMemberDecl<2, 12>;
using BL_int32_6 = BitFieldType<int32, BL_int32_6_m0, BL_int32_6_m1, BL_int32_6_m2>;
REFLECTOR_CREATE(BL_int32_6, BITFIELD, 1, VARNAMES, BL_int32_6_m0, BL_int32_6_m1, BL_int32_6_m2)
using BL_int32_7_m0 = BitMemberDecl<0, 8>;
using BL_int32_7_m1 = BitMemberDecl<1, 12>;
using BL_int32_7_m2 = BitMemberDecl<2, 12>;
using BL_int32_7 = BitFieldType<int32, BL_int32_7_m0, BL_int32_7_m1, BL_int32_7_m2>;
REFLECTOR_CREATE(BL_int32_7, BITFIELD, 1, VARNAMES, BL_int32_7_m0, BL_int32_7_m1, BL_int32_7_m2)
using BL_int32_8_m0 = BitMemberDecl<0, 9>;
using BL_int32_8_m1 = BitMemberDecl<1, 12>;
using BL_int32_8_m2 = BitMemberDecl<2, 11>;
using BL_int32_8 = BitFieldType<int32, BL_int32_8_m0, BL_int32_8_m1, BL_int32_8_m2>;
REFLECTOR_CREATE(BL_int32_8, BITFIELD, 1, VARNAMES, BL_int32_8_m0, BL_int32_8_m1, BL_int32_8_m2)
using BL_int32_9_m0 = BitMemberDecl<0, 15>;
using BL_int32_9_m1 = BitMemberDecl<1, 9>;
using BL_int32_9_m2 = BitMemberDecl<2, 8>;
using BL_int32_9 = BitFieldType<int32, BL_int32_9_m0, BL_int32_9_m1, BL_int32_9_m2>;
REFLECTOR_CREATE(BL_int32_9, BITFIELD, 1, VARNAMES, BL_int32_9_m0, BL_int32_9_m1, BL_int32_9_m2)
using BL_int32_10_m0 = BitMemberDecl<0, 16>;
using BL_int32_10_m1 = BitMemberDecl<1, 8>;
using BL_int32_10_m2 = BitMemberDecl<2, 8>;
using BL_int32_10 = BitFieldType<int32, BL_int32_10_m0, BL_int32_10_m1, BL_int32_10_m2>;
REFLECTOR_CREATE(BL_int32_10, BITFIELD, 1, VARNAMES, BL_int32_10_m0, BL_int32_10_m1, BL_int32_10_m2)
using BL_int32_11_m0 = BitMemberDecl<0, 17>;
using BL_int32_11_m1 = BitMemberDecl<1, 15>;
using BL_int32_11 = BitFieldType<int32, BL_int32_11_m0, BL_int32_11_m1>;
REFLECTOR_CREATE(BL_int32_11, BITFIELD, 1, VARNAMES, BL_int32_11_m0, BL_int32_11_m1)
using BL_int32_12_m0 = BitMemberDecl<0, 23>;
using BL_int32_12_m1 = BitMemberDecl<1, 9>;
using BL_int32_12 = BitFieldType<int32, BL_int32_12_m0, BL_int32_12_m1>;
REFLECTOR_CREATE(BL_int32_12, BITFIELD, 1, VARNAMES, BL_int32_12_m0, BL_int32_12_m1)
using BL_int32_13_m0 = BitMemberDecl<0, 8>;
using BL_int32_13_m1 = BitMemberDecl<1, 24>;
using BL_int32_13 = BitFieldType<int32, BL_int32_13_m0, BL_int32_13_m1>;
REFLECTOR_CREATE(BL_int32_13, BITFIELD, 1, VARNAMES, BL_int32_13_m0, BL_int32_13_m1)
using BL_int32_14_m0 = BitMemberDecl<0, 25>;
using BL_int32_14_m1 = BitMemberDecl<1, 7>;
using BL_int32_14 = BitFieldType<int32, BL_int32_14_m0, BL_int32_14_m1>;
REFLECTOR_CREATE(BL_int32_14, BITFIELD, 1, VARNAMES, BL_int32_14_m0, BL_int32_14_m1)
using BL_int32_15_m0 = BitMemberDecl<0, 29>;
using BL_int32_15_m1 = BitMemberDecl<1, 3>;
using BL_int32_15 = BitFieldType<int32, BL_int32_15_m0, BL_int32_15_m1>;
REFLECTOR_CREATE(BL_int32_15, BITFIELD, 1, VARNAMES, BL_int32_15_m0, BL_int32_15_m1)
using BL_int32_16_m0 = BitMemberDecl<0, 2>;
using BL_int32_16_m1 = BitMemberDecl<1, 30>;
using BL_int32_16 = BitFieldType<int32, BL_int32_16_m0, BL_int32_16_m1>;
REFLECTOR_CREATE(BL_int32_16, BITFIELD, 1, VARNAMES, BL_int32_16_m0, BL_int32_16_m1)
using BL_int32_17_m0 = BitMemberDecl<0, 31>;
using BL_int32_17_m1 = BitMemberDecl<1, 1>;
using BL_int32_17 = BitFieldType<int32, BL_int32_17_m0, BL_int32_17_m1>;
REFLECTOR_CREATE(BL_int32_17, BITFIELD, 1, VARNAMES, BL_int32_17_m0, BL_int32_17_m1)
using BL_int32_18_m0 = BitMemberDecl<0, 5>;
using BL_int32_18_m1 = BitMemberDecl<1, 13>;
using BL_int32_18 = BitFieldType<int32, BL_int32_18_m0, BL_int32_18_m1>;
REFLECTOR_CREATE(BL_int32_18, BITFIELD, 1, VARNAMES, BL_int32_18_m0, BL_int32_18_m1)
using BL_int64_0_m0 = BitMemberDecl<0, 1>;
using BL_int64_0_m1 = BitMemberDecl<1, 32>;
using BL_int64_0_m2 = BitMemberDecl<2, 31>;
using BL_int64_0 = BitFieldType<int64, BL_int64_0_m0, BL_int64_0_m1, BL_int64_0_m2>;
REFLECTOR_CREATE(BL_int64_0, BITFIELD, 1, VARNAMES, BL_int64_0_m0, BL_int64_0_m1, BL_int64_0_m2)
using BL_int64_1_m0 = BitMemberDecl<0, 2>;
using BL_int64_1_m1 = BitMemberDecl<1, 31>;
using BL_int64_1_m2 = BitMemberDecl<2, 31>;
using BL_int64_1 = BitFieldType<int64, BL_int64_1_m0, BL_int64_1_m1, BL_int64_1_m2>;
REFLECTOR_CREATE(BL_int64_1, BITFIELD, 1, VARNAMES, BL_int64_1_m0, BL_int64_1_m1, BL_int64_1_m2)
using BL_int64_2_m0 = BitMemberDecl<0, 3>;
using BL_int64_2_m1 = BitMemberDecl<1, 31>;
using BL_int64_2_m2 = BitMemberDecl<2, 30>;
using BL_int64_2 = BitFieldType<int64, BL_int64_2_m0, BL_int64_2_m1, BL_int64_2_m2>;
REFLECTOR_CREATE(BL_int64_2, BITFIELD, 1, VARNAMES, BL_int64_2_m0, BL_int64_2_m1, BL_int64_2_m2)
using BL_int64_3_m0 = BitMemberDecl<0, 4>;
using BL_int64_3_m1 = BitMemberDecl<1, 30>;
using BL_int64_3_m2 = BitMemberDecl<2, 30>;
using BL_int64_3 = BitFieldType<int64, BL_int64_3_m0, BL_int64_3_m1, BL_int64_3_m2>;
REFLECTOR_CREATE(BL_int64_3, BITFIELD, 1, VARNAMES, BL_int64_3_m0, BL_int64_3_m1, BL_int64_3_m2)
using BL_int64_4_m0 = BitMemberDecl<0, 5>;
using BL_int64_4_m1 = BitMemberDecl<1, 30>;
using BL_int64_4_m2 = BitMemberDecl<2, 29>;
using BL_int64_4 = BitFieldType<int64, BL_int64_4_m0, BL_int64_4_m1, BL_int64_4_m2>;
REFLECTOR_CREATE(BL_int64_4, BITFIELD, 1, VARNAMES, BL_int64_4_m0, BL_int64_4_m1, BL_int64_4_m2)
using BL_int64_5_m0 = BitMemberDecl<0, 6>;
using BL_int64_5_m1 = BitMemberDecl<1, 29>;
using BL_int64_5_m2 = BitMemberDecl<2, 29>;
using BL_int64_5 = BitFieldType<int64, BL_int64_5_m0, BL_int64_5_m1, BL_int64_5_m2>;
REFLECTOR_CREATE(BL_int64_5, BITFIELD, 1, VARNAMES, BL_int64_5_m0, BL_int64_5_m1, BL_int64_5_m2)
using BL_int64_6_m0 = BitMemberDecl<0, 7>;
using BL_int64_6_m1 = BitMemberDecl<1, 29>;
using BL_int64_6_m2 = BitMemberDecl<2, 28>;
using BL_int64_6 = BitFieldType<int64, BL_int64_6_m0, BL_int64_6_m1, BL_int64_6_m2>;
REFLECTOR_CREATE(BL_int64_6, BITFIELD, 1, VARNAMES, BL_int64_6_m0, BL_int64_6_m1, BL_int64_6_m2)
using BL_int64_7_m0 = BitMemberDecl<0, 8>;
using BL_int64_7_m1 = BitMemberDecl<1, 28>;
using BL_int64_7_m2 = BitMemberDecl<2, 28>;
using BL_int64_7 = BitFieldType<int64, BL_int64_7_m0, BL_int64_7_m1, BL_int64_7_m2>;
REFLECTOR_CREATE(BL_int64_7, BITFIELD, 1, VARNAMES, BL_int64_7_m0, BL_int64_7_m1, BL_int64_7_m2)
using BL_int64_8_m0 = BitMemberDecl<0, 9>;
using BL_int64_8_m1 = BitMemberDecl<1, 28>;
using BL_int64_8_m2 = BitMemberDecl<2, 27>;
using BL_int64_8 = BitFieldType<int64, BL_int64_8_m0, BL_int64_8_m1, BL_int64_8_m2>;
REFLECTOR_CREATE(BL_int64_8, BITFIELD, 1, VARNAMES, BL_int64_8_m0, BL_int64_8_m1, BL_int64_8_m2)
using BL_int64_9_m0 = BitMemberDecl<0, 15>;
using BL_int64_9_m1 = BitMemberDecl<1, 25>;
using BL_int64_9_m2 = BitMemberDecl<2, 24>;
using BL_int64_9 = BitFieldType<int64, BL_int64_9_m0, BL_int64_9_m1, BL_int64_9_m2>;
REFLECTOR_CREATE(BL_int64_9, BITFIELD, 1, VARNAMES, BL_int64_9_m0, BL_int64_9_m1, BL_int64_9_m2)
using BL_int64_10_m0 = BitMemberDecl<0, 16>;
using BL_int64_10_m1 = BitMemberDecl<1, 24>;
using BL_int64_10_m2 = BitMemberDecl<2, 24>;
using BL_int64_10 = BitFieldType<int64, BL_int64_10_m0, BL_int64_10_m1, BL_int64_10_m2>;
REFLECTOR_CREATE(BL_int64_10, BITFIELD, 1, VARNAMES, BL_int64_10_m0, BL_int64_10_m1, BL_int64_10_m2)
using BL_int64_11_m0 = BitMemberDecl<0, 17>;
using BL_int64_11_m1 = BitMemberDecl<1, 24>;
using BL_int64_11_m2 = BitMemberDecl<2, 23>;
using BL_int64_11 = BitFieldType<int64, BL_int64_11_m0, BL_int64_11_m1, BL_int64_11_m2>;
REFLECTOR_CREATE(BL_int64_11, BITFIELD, 1, VARNAMES, BL_int64_11_m0, BL_int64_11_m1, BL_int64_11_m2)
using BL_int64_12_m0 = BitMemberDecl<0, 23>;
using BL_int64_12_m1 = BitMemberDecl<1, 21>;
using BL_int64_12_m2 = BitMemberDecl<2, 20>;
using BL_int64_12 = BitFieldType<int64, BL_int64_12_m0, BL_int64_12_m1, BL_int64_12_m2>;
REFLECTOR_CREATE(BL_int64_12, BITFIELD, 1, VARNAMES, BL_int64_12_m0, BL_int64_12_m1, BL_int64_12_m2)
using BL_int64_13_m0 = BitMemberDecl<0, 24>;
using BL_int64_13_m1 = BitMemberDecl<1, 20>;
using BL_int64_13_m2 = BitMemberDecl<2, 20>;
using BL_int64_13 = BitFieldType<int64, BL_int64_13_m0, BL_int64_13_m1, BL_int64_13_m2>;
REFLECTOR_CREATE(BL_int64_13, BITFIELD, 1, VARNAMES, BL_int64_13_m0, BL_int64_13_m1, BL_int64_13_m2)
using BL_int64_14_m0 = BitMemberDecl<0, 25>;
using BL_int64_14_m1 = BitMemberDecl<1, 20>;
using BL_int64_14_m2 = BitMemberDecl<2, 19>;
using BL_int64_14 = BitFieldType<int64, BL_int64_14_m0, BL_int64_14_m1, BL_int64_14_m2>;
REFLECTOR_CREATE(BL_int64_14, BITFIELD, 1, VARNAMES, BL_int64_14_m0, BL_int64_14_m1, BL_int64_14_m2)
using BL_int64_15_m0 = BitMemberDecl<0, 31>;
using BL_int64_15_m1 = BitMemberDecl<1, 17>;
using BL_int64_15_m2 = BitMemberDecl<2, 16>;
using BL_int64_15 = BitFieldType<int64, BL_int64_15_m0, BL_int64_15_m1, BL_int64_15_m2>;
REFLECTOR_CREATE(BL_int64_15, BITFIELD, 1, VARNAMES, BL_int64_15_m0, BL_int64_15_m1, BL_int64_15_m2)
using BL_int64_16_m0 = BitMemberDecl<0, 32>;
using BL_int64_16_m1 = BitMemberDecl<1, 16>;
using BL_int64_16_m2 = BitMemberDecl<2, 16>;
using BL_int64_16 = BitFieldType<int64, BL_int64_16_m0, BL_int64_16_m1, BL_int64_16_m2>;
REFLECTOR_CREATE(BL_int64_16, BITFIELD, 1, VARNAMES, BL_int64_16_m0, BL_int64_16_m1, BL_int64_16_m2)
using BL_int64_17_m0 = BitMemberDecl<0, 33>;
using BL_int64_17_m1 = BitMemberDecl<1, 31>;
using BL_int64_17 = BitFieldType<int64, BL_int64_17_m0, BL_int64_17_m1>;
REFLECTOR_CREATE(BL_int64_17, BITFIELD, 1, VARNAMES, BL_int64_17_m0, BL_int64_17_m1)
using BL_int64_18_m0 = BitMemberDecl<0, 39>;
using BL_int64_18_m1 = BitMemberDecl<1, 25>;
using BL_int64_18 = BitFieldType<int64, BL_int64_18_m0, BL_int64_18_m1>;
REFLECTOR_CREATE(BL_int64_18, BITFIELD, 1, VARNAMES, BL_int64_18_m0, BL_int64_18_m1)
using BL_int64_19_m0 = BitMemberDecl<0, 24>;
using BL_int64_19_m1 = BitMemberDecl<1, 40>;
using BL_int64_19 = BitFieldType<int64, BL_int64_19_m0, BL_int64_19_m1>;
REFLECTOR_CREATE(BL_int64_19, BITFIELD, 1, VARNAMES, BL_int64_19_m0, BL_int64_19_m1)
using BL_int64_20_m0 = BitMemberDecl<0, 41>;
using BL_int64_20_m1 = BitMemberDecl<1, 23>;
using BL_int64_20 = BitFieldType<int64, BL_int64_20_m0, BL_int64_20_m1>;
REFLECTOR_CREATE(BL_int64_20, BITFIELD, 1, VARNAMES, BL_int64_20_m0, BL_int64_20_m1)
using BL_int64_21_m0 = BitMemberDecl<0, 47>;
using BL_int64_21_m1 = BitMemberDecl<1, 17>;
using BL_int64_21 = BitFieldType<int64, BL_int64_21_m0, BL_int64_21_m1>;
REFLECTOR_CREATE(BL_int64_21, BITFIELD, 1, VARNAMES, BL_int64_21_m0, BL_int64_21_m1)
using BL_int64_22_m0 = BitMemberDecl<0, 16>;
using BL_int64_22_m1 = BitMemberDecl<1, 48>;
using BL_int64_22 = BitFieldType<int64, BL_int64_22_m0, BL_int64_22_m1>;
REFLECTOR_CREATE(BL_int64_22, BITFIELD, 1, VARNAMES, BL_int64_22_m0, BL_int64_22_m1)
using BL_int64_23_m0 = BitMemberDecl<0, 49>;
using BL_int64_23_m1 = BitMemberDecl<1, 15>;
using BL_int64_23 = BitFieldType<int64, BL_int64_23_m0, BL_int64_23_m1>;
REFLECTOR_CREATE(BL_int64_23, BITFIELD, 1, VARNAMES, BL_int64_23_m0, BL_int64_23_m1)
using BL_int64_24_m0 = BitMemberDecl<0, 55>;
using BL_int64_24_m1 = BitMemberDecl<1, 9>;
using BL_int64_24 = BitFieldType<int64, BL_int64_24_m0, BL_int64_24_m1>;
REFLECTOR_CREATE(BL_int64_24, BITFIELD, 1, VARNAMES, BL_int64_24_m0, BL_int64_24_m1)
using BL_int64_25_m0 = BitMemberDecl<0, 8>;
using BL_int64_25_m1 = BitMemberDecl<1, 56>;
using BL_int64_25 = BitFieldType<int64, BL_int64_25_m0, BL_int64_25_m1>;
REFLECTOR_CREATE(BL_int64_25, BITFIELD, 1, VARNAMES, BL_int64_25_m0, BL_int64_25_m1)
using BL_int64_26_m0 = BitMemberDecl<0, 57>;
using BL_int64_26_m1 = BitMemberDecl<1, 7>;
using BL_int64_26 = BitFieldType<int64, BL_int64_26_m0, BL_int64_26_m1>;
REFLECTOR_CREATE(BL_int64_26, BITFIELD, 1, VARNAMES, BL_int64_26_m0, BL_int64_26_m1)
using BL_int64_27_m0 = BitMemberDecl<0, 61>;
using BL_int64_27_m1 = BitMemberDecl<1, 3>;
using BL_int64_27 = BitFieldType<int64, BL_int64_27_m0, BL_int64_27_m1>;
REFLECTOR_CREATE(BL_int64_27, BITFIELD, 1, VARNAMES, BL_int64_27_m0, BL_int64_27_m1)
using BL_int64_28_m0 = BitMemberDecl<0, 2>;
using BL_int64_28_m1 = BitMemberDecl<1, 62>;
using BL_int64_28 = BitFieldType<int64, BL_int64_28_m0, BL_int64_28_m1>;
REFLECTOR_CREATE(BL_int64_28, BITFIELD, 1, VARNAMES, BL_int64_28_m0, BL_int64_28_m1)
using BL_int64_29_m0 = BitMemberDecl<0, 63>;
using BL_int64_29_m1 = BitMemberDecl<1, 1>;
using BL_int64_29 = BitFieldType<int64, BL_int64_29_m0, BL_int64_29_m1>;
REFLECTOR_CREATE(BL_int64_29, BITFIELD, 1, VARNAMES, BL_int64_29_m0, BL_int64_29_m1)
using BL_int64_30_m0 = BitMemberDecl<0, 5>;
using BL_int64_30_m1 = BitMemberDecl<1, 29>;
using BL_int64_30 = BitFieldType<int64, BL_int64_30_m0, BL_int64_30_m1>;
REFLECTOR_CREATE(BL_int64_30, BITFIELD, 1, VARNAMES, BL_int64_30_m0, BL_int64_30_m1)
struct BitLayout { const char *name; const reflectorStatic *refl; int bytes; bool isSigned; int n; int size[4]; };
static const std::vector<BitLayout> &bitLayouts() { static const std::vector<BitLayout> l{
  {"BL_uint8_0", GetReflectedClass<BL_uint8_0>(), int(sizeof(BL_uint8_0)), false, 3, {1, 4, 3}},
  {"BL_uint8_1", GetReflectedClass<BL_uint8_1>(), int(sizeof(BL_uint8_1)), false, 3, {2, 3, 3}},
  {"BL_uint8_2", GetReflectedClass<BL_uint8_2>(), int(sizeof(BL_uint8_2)), false, 3, {3, 3, 2}},
  {"BL_uint8_3", GetReflectedClass<BL_uint8_3>(), int(sizeof(BL_uint8_3)), false, 3, {4, 2, 2}},
  {"BL_uint8_4", GetReflectedClass<BL_uint8_4>(), int(sizeof(BL_uint8_4)), false, 2, {5, 3}},
  {"BL_uint8_5", GetReflectedClass<BL_uint8_5>(), int(sizeof(BL_uint8_5)), false, 2, {2, 6}},
  {"BL_uint8_6", GetReflectedClass<BL_uint8_6>(), int(sizeof(BL_uint8_6)), false, 2, {7, 1}},
  {"BL_uint8_7", GetReflectedClass<BL_uint8_7>(), int(sizeof(BL_uint8_7)), false, 2, {3, 2}},
  {"BL_uint16_0", GetReflectedClass<BL_uint16_0>(), int(sizeof(BL_uint16_0)), false, 3, {1, 8, 7}},
  {"BL_uint16_1", GetReflectedClass<BL_uint16_1>(), int(sizeof(BL_uint16_1)), false, 3, {2, 7, 7}},
  {"BL_uint16_2", GetReflectedClass<BL_uint16_2>(), int(sizeof(BL_uint16_2)), false, 3, {3, 7, 6}},
  {"BL_uint16_3", GetReflectedClass<BL_uint16_3>(), int(sizeof(BL_uint16_3)), false, 3, {4, 6, 6}},
  {"BL_uint16_4", GetReflectedClass<BL_uint16_4>(), int(sizeof(BL_uint16_4)), false, 3, {5, 6, 5}},
  {"BL_uint16_5", GetReflectedClass<BL_uint16_5>(), int(sizeof(BL_uint16_5)), false, 3, {6, 5, 5}},
  {"BL_uint16_6", GetReflectedClass<BL_uint16_6>(), int(sizeof(BL_uint16_6)), false, 3, {7, 5, 4}},
  {"BL_uint16_7", GetReflectedClass<BL_uint16_7>(), int(sizeof(BL_uint16_7)), false, 3, {8, 4, 4}},
  {"BL_uint16_8", GetReflectedClass<BL_uint16_8>(), int(sizeof(BL_uint16_8)), false, 2, {9, 7}},
  {"BL_uint16_9", GetReflectedClass<BL_uint16_9>(), int(sizeof(BL_uint16_9)), false, 2, {6, 10}},
  {"BL_uint16_10", GetReflectedClass<BL_uint16_10>(), int(sizeof(BL_uint16_10)), false, 2, {11, 5}},
  {"BL_uint16_11", GetReflectedClass<BL_uint16_11>(), int(sizeof(BL_uint16_11)), false, 2, {4, 12}},
  {"BL_uint16_12", GetReflectedClass<BL_uint16_12>(), int(sizeof(BL_uint16_12)), false, 2, {13, 3}},
  {"BL_uint16_13", GetReflectedClass<BL_uint16_13>(), int(sizeof(BL_uint16_13)), false, 2, {2, 14}},
  {"BL_uint16_14", GetReflectedClass<BL_uint16_14>(), int(sizeof(BL_uint16_14)), false, 2, {15, 1}},
  {"BL_uint16_15", GetReflectedClass<BL_uint16_15>(), int(sizeof(BL_uint16_15)), false, 2, {5, 5}},
  {"BL_uint32_0", GetReflectedClass<BL_uint32_0>(), int(sizeof(BL_uint32_0)), false, 3, {1, 16, 15}},
  {"BL_uint32_1", GetReflectedClass<BL_uint32_1>(), int(sizeof(BL_uint32_1)), false, 3, {2, 15, 15}},
  {"BL_uint32_2", GetReflectedClass<BL_uint32_2>(), int(sizeof(BL_uint32_2)), false, 3, {3, 15, 14}},
  {"BL_uint32_3", GetReflectedClass<BL_uint32_3>(), int(sizeof(BL_uint32_3)), false, 3, {4, 14, 14}},
  {"BL_uint32_4", GetReflectedClass<BL_uint32_4>(), int(sizeof(BL_uint32_4)), false, 3, {5, 14, 13}},
  {"BL_uint32_5", GetReflectedClass<BL_uint32_5>(), int(sizeof(BL_uint32_5)), false, 3, {6, 13, 13}},
  {"BL_uint32_6", GetReflectedClass<BL_uint32_6>(), int(sizeof(BL_uint32_6)), false, 3, {7, 13, 12}},
  {"BL_uint32_7", GetReflectedClass<BL_uint32_7>(), int(sizeof(BL_uint32_7)), false, 3, {8, 12, 12}},
  {"BL_uint32_8", GetReflectedClass<BL_uint32_8>(), int(sizeof(BL_uint32_8)), false, 3, {9, 12, 11}},
  {"BL_uint32_9", GetReflectedClass<BL_uint32_9>(), int(sizeof(BL_uint32_9)), false, 3, {15, 9, 8}},
  {"BL_uint32_10", GetReflectedClass<BL_uint32_10>(), int(sizeof(BL_uint32_10)), false, 3, {16, 8, 8}},
  {"BL_uint32_11", GetReflectedClass<BL_uint32_11>(), int(sizeof(BL_uint32_11)), false, 2, {17, 15}},
  {"BL_uint32_12", GetReflectedClass<BL_uint32_12>(), int(sizeof(BL_uint32_12)), false, 2, {23, 9}},
  {"BL_uint32_13", GetReflectedClass<BL_uint32_13>(), int(sizeof(BL_uint32_13)), false, 2, {8, 24}},
  {"BL_uint32_14", GetReflectedClass<BL_uint32_14>(), int(sizeof(BL_uint32_14)), false, 2, {25, 7}},
  {"BL_uint32_15", GetReflectedClass<BL_uint32_15>(), int(sizeof(BL_uint32_15)), false, 2, {29, 3}},
  {"BL_uint32_16", GetReflectedClass<BL_uint32_16>(), int(sizeof(BL_uint32_16)), false, 2, {2, 30}},
  {"BL_uint32_17", GetReflectedClass<BL_uint32_17>(), int(sizeof(BL_uint32_17)), false, 2, {31, 1}},
  {"BL_uint32_18", GetReflectedClass<BL_uint32_18>(), int(sizeof(BL_uint32_18)), false, 2, {5, 13}},
  {"BL_uint64_0", GetReflectedClass<BL_uint64_0>(), int(sizeof(BL_uint64_0)), false, 3, {1, 32, 31}},
  {"BL_uint64_1", GetReflectedClass<BL_uint64_1>(), int(sizeof(BL_uint64_1)), false, 3, {2, 31, 31}},
  {"BL_uint64_2", GetReflectedClass<BL_uint64_2>(), int(sizeof(BL_uint64_2)), false, 3, {3, 31, 30}},
  {"BL_uint64_3", GetReflectedClass<BL_uint64_3>(), int(sizeof(BL_uint64_3)), false, 3, {4, 30, 30}},
  {"BL_uint64_4", GetReflectedClass<BL_uint64_4>(), int(sizeof(BL_uint64_4)), false, 3, {5, 30, 29}},
  {"BL_uint64_5", GetReflectedClass<BL_uint64_5>(), int(sizeof(BL_uint64_5)), false, 3, {6, 29, 29}},
  {"BL_uint64_6", GetReflectedClass<BL_uint64_6>(), int(sizeof(BL_uint64_6)), false, 3, {7, 29, 28}},
  {"BL_uint64_7", GetReflectedClass<BL_uint64_7>(), int(sizeof(BL_uint64_7)), false, 3, {8, 28, 28}},
  {"BL_uint64_8", GetReflectedClass<BL_uint64_8>(), int(sizeof(BL_uint64_8)), false, 3, {9, 28, 27}},
  {"BL_uint64_9", GetReflectedClass<BL_uint64_9>(), int(sizeof(BL_uint64_9)), false, 3, {15, 25, 24}},
  {"BL_uint64_10", GetReflectedClass<BL_uint64_10>(), int(sizeof(BL_uint64_10)), false, 3, {16, 24, 24}},
  {"BL_uint64_11", GetReflectedClass<BL_uint64_11>(), int(sizeof(BL_uint64_11)), false, 3, {17, 24, 23}},
  {"BL_uint64_12", GetReflectedClass<BL_uint64_12>(), int(sizeof(BL_uint64_12)), false, 3, {23, 21, 20}},
  {"BL_uint64_13", GetReflectedClass<BL_uint64_13>(), int(sizeof(BL_uint64_13)), false, 3, {24, 20, 20}},
  {"BL_uint64_14", GetReflectedClass<BL_uint64_14>(), int(sizeof(BL_uint64_14)), false, 3, {25, 20, 19}},
  {"BL_uint64_15", GetReflectedClass<BL_uint64_15>(), int(sizeof(BL_uint64_15)), false, 3, {31, 17, 16}},
  {"BL_uint64_16", GetReflectedClass<BL_uint64_16>(), int(sizeof(BL_uint64_16)), false, 3, {32, 16, 16}},
  {"BL_uint64_17", GetReflectedClass<BL_uint64_17>(), int(sizeof(BL_uint64_17)), false, 2, {33, 31}},
  {"BL_uint64_18", GetReflectedClass<BL_uint64_18>(), int(sizeof(BL_uint64_18)), false, 2, {39, 25}},
  {"BL_uint64_19", GetReflectedClass<BL_uint64_19>(), int(sizeof(BL_uint64_19)), false, 2, {24, 40}},
  {"BL_uint64_20", GetReflectedClass<BL_uint64_20>(), int(sizeof(BL_uint64_20)), false, 2, {41, 23}},
  {"BL_uint64_21", GetReflectedClass<BL_uint64_21>(), int(sizeof(BL_uint64_21)), false, 2, {47, 17}},
  {"BL_uint64_22", GetReflectedClass<BL_uint64_22>(), int(sizeof(BL_uint64_22)), false, 2, {16, 48}},
  {"BL_uint64_23", GetReflectedClass<BL_uint64_23>(), int(sizeof(BL_uint64_23)), false, 2, {49, 15}},
  {"BL_uint64_24", GetReflectedClass<BL_uint64_24>(), int(sizeof(BL_uint64_24)), false, 2, {55, 9}},
  {"BL_uint64_25", GetReflectedClass<BL_uint64_25>(), int(sizeof(BL_uint64_25)), false, 2, {8, 56}},
  {"BL_uint64_26", GetReflectedClass<BL_uint64_26>(), int(sizeof(BL_uint64_26)), false, 2, {57, 7}},
  {"BL_uint64_27", GetReflectedClass<BL_uint64_27>(), int(sizeof(BL_uint64_27)), false, 2, {61, 3}},
  {"BL_uint64_28", GetReflectedClass<BL_uint64_28>(), int(sizeof(BL_uint64_28)), false, 2, {2, 62}},
  {"BL_uint64_29", GetReflectedClass<BL_uint64_29>(), int(sizeof(BL_uint64_29)), false, 2, {63, 1}},
  {"BL_uint64_30", GetReflectedClass<BL_uint64_30>(), int(sizeof(BL_uint64_30)), false, 2, {5, 29}},
  {"BL_int8_0", GetReflectedClass<BL_int8_0>(), int(sizeof(BL_int8_0)), true, 3, {1, 4, 3}},
  {"BL_int8_1", GetReflectedClass<BL_int8_1>(), int(sizeof(BL_int8_1)), true, 3, {2, 3, 3}},
  {"BL_int8_2", GetReflectedClass<BL_int8_2>(), int(sizeof(BL_int8_2)), true, 3, {3, 3, 2}},
  {"BL_int8_3", GetReflectedClass<BL_int8_3>(), int(sizeof(BL_int8_3)), true, 3, {4, 2, 2}},
  {"BL_int8_4", GetReflectedClass<BL_int8_4>(), int(sizeof(BL_int8_4)), true, 2, {5, 3}},
  {"BL_int8_5", GetReflectedClass<BL_int8_5>(), int(sizeof(BL_int8_5)), true, 2, {2, 6}},
  {"BL_int8_6", GetReflectedClass<BL_int8_6>(), int(sizeof(BL_int8_6)), true, 2, {7, 1}},
  {"BL_int8_7", GetReflectedClass<BL_int8_7>(), int(sizeof(BL_int8_7)), true, 2, {3, 2}},
  {"BL_int16_0", GetReflectedClass<BL_int16_0>(), int(sizeof(BL_int16_0)), true, 3, {1, 8, 7}},
  {"BL_int16_1", GetReflectedClass<BL_int16_1>(), int(sizeof(BL_int16_1)), true, 3, {2, 7, 7}},
  {"BL_int16_2", GetReflectedClass<BL_int16_2>(), int(sizeof(BL_int16_2)), true, 3, {3, 7, 6}},
  {"BL_int16_3", GetReflectedClass<BL_int16_3>(), int(sizeof(BL_int16_3)), true, 3, {4, 6, 6}},
  {"BL_int16_4", GetReflectedClass<BL_int16_4>(), int(sizeof(BL_int16_4)), true, 3, {5, 6, 5}},
  {"BL_int16_5", GetReflectedClass<BL_int16_5>(), int(sizeof(BL_int16_5)), true, 3, {6, 5, 5}},
  {"BL_int16_6", GetReflectedClass<BL_int16_6>(), int(sizeof(BL_int16_6)), true, 3, {7, 5, 4}},
  {"BL_int16_7", GetReflectedClass<BL_int16_7>(), int(sizeof(BL_int16_7)), true, 3, {8, 4, 4}},
  {"BL_int16_8", GetReflectedClass<BL_int16_8>(), int(sizeof(BL_int16_8)), true, 2, {9, 7}},
  {"BL_int16_9", GetReflectedClass<BL_int16_9>(), int(sizeof(BL_int16_9)), true, 2, {6, 10}},
  {"BL_int16_10", GetReflectedClass<BL_int16_10>(), int(sizeof(BL_int16_10)), true, 2, {11, 5}},
  {"BL_int16_11", GetReflectedClass<BL_int16_11>(), int(sizeof(BL_int16_11)), true, 2, {4, 12}},
  {"BL_int16_12", GetReflectedClass<BL_int16_12>(), int(sizeof(BL_int16_12)), true, 2, {13, 3}},
  {"BL_int16_13", GetReflectedClass<BL_int16_13>(), int(sizeof(BL_int16_13)), true, 2, {2, 14}},
  {"BL_int16_14", GetReflectedClass<BL_int16_14>(), int(sizeof(BL_int16_14)), true, 2, {15, 1}},
  {"BL_int16_15", GetReflectedClass<BL_int16_15>(), int(sizeof(BL_int16_15)), true, 2, {5, 5}},
  {"BL_int32_0", GetReflectedClass<BL_int32_0>(), int(sizeof(BL_int32_0)), true, 3, {1, 16, 15}},
  {"BL_int32_1", GetReflectedClass<BL_int32_1>(), int(sizeof(BL_int32_1)), true, 3, {2, 15, 15}},
  {"BL_int32_2", GetReflectedClass<BL_int32_2>(), int(sizeof(BL_int32_2)), true, 3, {3, 15, 14}},
  {"BL_int32_3", GetReflectedClass<BL_int32_3>(), int(sizeof(BL_int32_3)), true, 3, {4, 14, 14}},
  {"BL_int32_4", GetReflectedClass<BL_int32_4>(), int(sizeof(BL_int32_4)), true, 3, {5, 14, 13}},
  {"BL_int32_5", GetReflectedClass<BL_int32_5>(), int(sizeof(BL_int32_5)), true, 3, {6, 13, 13}},
  {"BL_int32_6", GetReflectedClass<BL_int32_6>(), int(sizeof(BL_int32_6)), true, 3, {7, 13, 12}},
  {"BL_int32_7", GetReflectedClass<BL_int32_7>(), int(sizeof(BL_int32_7)), true, 3, {8, 12, 12}},
  {"BL_int32_8", GetReflectedClass<BL_int32_8>(), int(sizeof(BL_int32_8)), true, 3, {9, 12, 11}},
  {"BL_int32_9", GetReflectedClass<BL_int32_9>(), int(sizeof(BL_int32_9)), true, 3, {15, 9, 8}},
  {"BL_int32_10", GetReflectedClass<BL_int32_10>(), int(sizeof(BL_int32_10)), true, 3, {16, 8, 8}},
  {"BL_int32_11", GetReflectedClass<BL_int32_11>(), int(sizeof(BL_int32_11)), true, 2, {17, 15}},
  {"BL_int32_12", GetReflectedClass<BL_int32_12>(), int(sizeof(BL_int32_12)), true, 2, {23, 9}},
  {"BL_int32_13", GetReflectedClass<BL_int32_13>(), int(sizeof(BL_int32_13)), true, 2, {8, 24}},
  {"BL_int32_14", GetReflectedClass<BL_int32_14>(), int(sizeof(BL_int32_14)), true, 2, {25, 7}},
  {"BL_int32_15", GetReflectedClass<BL_int32_15>(), int(sizeof(BL_int32_15)), true, 2, {29, 3}},
  {"BL_int32_16", GetReflectedClass<BL_int32_16>(), int(sizeof(BL_int32_16)), true, 2, {2, 30}},
  {"BL_int32_17", GetReflectedClass<BL_int32_17>(), int(sizeof(BL_int32_17)), true, 2, {31, 1}},
  {"BL_int32_18", GetReflectedClass<BL_int32_18>(), int(sizeof(BL_int32_18)), true, 2, {5, 13}},
  {"BL_int64_0", GetReflectedClass<BL_int64_0>(), int(sizeof(BL_int64_0)), true, 3, {1, 32, 31}},
  {"BL_int64_1", GetReflectedClass<BL_int64_1>(), int(sizeof(BL_int64_1)), true, 3, {2, 31, 31}},
  {"BL_int64_2", GetReflectedClass<BL_int64_2>(), int(sizeof(BL_int64_2)), true, 3, {3, 31, 30}},
  {"BL_int64_3", GetReflectedClass<BL_int64_3>(), int(sizeof(BL_int64_3)), true, 3, {4, 30, 30}},
  {"BL_int64_4", GetReflectedClass<BL_int64_4>(), int(sizeof(BL_int64_4)), true, 3, {5, 30, 29}},
  {"BL_int64_5", GetReflectedClass<BL_int64_5>(), int(sizeof(BL_int64_5)), true, 3, {6, 29, 29}},
  {"BL_int64_6", GetReflectedClass<BL_int64_6>(), int(sizeof(BL_int64_6)), true, 3, {7, 29, 28}},
  {"BL_int64_7", GetReflectedClass<BL_int64_7>(), int(sizeof(BL_int64_7)), true, 3, {8, 28, 28}},
  {"BL_int64_8", GetReflectedClass<BL_int64_8>(), int(sizeof(BL_int64_8)), true, 3, {9, 28, 27}},
  {"BL_int64_9", GetReflectedClass<BL_int64_9>(), int(sizeof(BL_int64_9)), true, 3, {15, 25, 24}},
  {"BL_int64_10", GetReflectedClass<BL_int64_10>(), int(sizeof(BL_int64_10)), true, 3, {16, 24, 24}},
  {"BL_int64_11", GetReflectedClass<BL_int64_11>(), int(sizeof(BL_int64_11)), true, 3, {17, 24, 23}},
  {"BL_int64_12", GetReflectedClass<BL_int64_12>(), int(sizeof(BL_int64_12)), true, 3, {23, 21, 20}},
  {"BL_int64_13", GetReflectedClass<BL_int64_13>(), int(sizeof(BL_int64_13)), true, 3, {24, 20, 20}},
  {"BL_int64_14", GetReflectedClass<BL_int64_14>(), int(sizeof(BL_int64_14)), true, 3, {25, 20, 19}},
  {"BL_int64_15", GetReflectedClass<BL_int64_15>(), int(sizeof(BL_int64_15)), true, 3, {31, 17, 16}},
  {"BL_int64_16", GetReflectedClass<BL_int64_16>(), int(sizeof(BL_int64_16)), true, 3, {32, 16, 16}},
  {"BL_int64_17", GetReflectedClass<BL_int64_17>(), int(sizeof(BL_int64_17)), true, 2, {33, 31}},
  {"BL_int64_18", GetReflectedClass<BL_int64_18>(), int(sizeof(BL_int64_18)), true, 2, {39, 25}},
  {"BL_int64_19", GetReflectedClass<BL_int64_19>(), int(sizeof(BL_int64_19)), true, 2, {24, 40}},
  {"BL_int64_20", GetReflectedClass<BL_int64_20>(), int(sizeof(BL_int64_20)), true, 2, {41, 23}},
  {"BL_int64_21", GetReflectedClass<BL_int64_21>(), int(sizeof(BL_int64_21)), true, 2, {47, 17}},
  {"BL_int64_22", GetReflectedClass<BL_int64_22>(), int(sizeof(BL_int64_22)), true, 2, {16, 48}},
  {"BL_int64_23", GetReflectedClass<BL_int64_23>(), int(sizeof(BL_int64_23)), true, 2, {49, 15}},
  {"BL_int64_24", GetReflectedClass<BL_int64_24>(), int(sizeof(BL_int64_24)), true, 2, {55, 9}},
  {"BL_int64_25", GetReflectedClass<BL_int64_25>(), int(sizeof(BL_int64_25)), true, 2, {8, 56}},
  {"BL_int64_26", GetReflectedClass<BL_int64_26>(), int(sizeof(BL_int64_26)), true, 2, {57, 7}},
  {"BL_int64_27", GetReflectedClass<BL_int64_27>(), int(sizeof(BL_int64_27)), true, 2, {61, 3}},
  {"BL_int64_28", GetReflectedClass<BL_int64_28>(), int(sizeof(BL_int64_28)), true, 2, {2, 62}},
  {"BL_int64_29", GetReflectedClass<BL_int64_29>(), int(sizeof(BL_int64_29)), true, 2, {63, 1}},
  {"BL_int64_30", GetReflectedClass<BL_int64_30>(), int(sizeof(BL_int64_30)), true, 2, {5, 29}},
}; return l; }
