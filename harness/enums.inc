// generated by tools/gen_enums.py
REFLECTOR_CREATE(En0, ENUM, 0, En0_A, En0_AB, En0_Ba);
struct En0_Cls { uint64 g0; En0 m; uint8 g1; En0 a[3]; es::Flags<En0, uint8> f8; es::Flags<En0, uint64> f64; es::Flags<En0, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En0_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En1, ENUM, 0, En1_A, En1_AB, En1_Ba = 2147483647);
struct En1_Cls { uint64 g0; En1 m; uint8 g1; En1 a[3]; es::Flags<En1, uint8> f8; es::Flags<En1, uint64> f64; es::Flags<En1, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En1_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En2, ENUM, 0, En2_A, En2_AB, En2_Ba = 0x7fffffff);
struct En2_Cls { uint64 g0; En2 m; uint8 g1; En2 a[3]; es::Flags<En2, uint8> f8; es::Flags<En2, uint64> f64; es::Flags<En2, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En2_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En3, ENUM, 0, En3_A, En3_AB, En3_Ba = 077u);
struct En3_Cls { uint64 g0; En3 m; uint8 g1; En3 a[3]; es::Flags<En3, uint8> f8; es::Flags<En3, uint64> f64; es::Flags<En3, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En3_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En4, ENUM, 0, En4_A, En4_AB = 40, En4_Ba);
struct En4_Cls { uint64 g0; En4 m; uint8 g1; En4 a[3]; es::Flags<En4, uint8> f8; es::Flags<En4, uint64> f64; es::Flags<En4, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En4_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En5, ENUM, 0, En5_A, En5_AB = 40, En5_Ba = 2147483647);
struct En5_Cls { uint64 g0; En5 m; uint8 g1; En5 a[3]; es::Flags<En5, uint8> f8; es::Flags<En5, uint64> f64; es::Flags<En5, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En5_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En6, ENUM, 0, En6_A, En6_AB = 40, En6_Ba = 0x7fffffff);
struct En6_Cls { uint64 g0; En6 m; uint8 g1; En6 a[3]; es::Flags<En6, uint8> f8; es::Flags<En6, uint64> f64; es::Flags<En6, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En6_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En7, ENUM, 0, En7_A, En7_AB = 40, En7_Ba = 077u);
struct En7_Cls { uint64 g0; En7 m; uint8 g1; En7 a[3]; es::Flags<En7, uint8> f8; es::Flags<En7, uint64> f64; es::Flags<En7, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En7_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En8, ENUM, 0, En8_A, En8_AB = 0x3f, En8_Ba);
struct En8_Cls { uint64 g0; En8 m; uint8 g1; En8 a[3]; es::Flags<En8, uint8> f8; es::Flags<En8, uint64> f64; es::Flags<En8, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En8_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En9, ENUM, 0, En9_A, En9_AB = 0x3f, En9_Ba = 2147483647);
struct En9_Cls { uint64 g0; En9 m; uint8 g1; En9 a[3]; es::Flags<En9, uint8> f8; es::Flags<En9, uint64> f64; es::Flags<En9, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En9_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En10, ENUM, 0, En10_A, En10_AB = 0x3f, En10_Ba = 0x7fffffff);
struct En10_Cls { uint64 g0; En10 m; uint8 g1; En10 a[3]; es::Flags<En10, uint8> f8; es::Flags<En10, uint64> f64; es::Flags<En10, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En10_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En11, ENUM, 0, En11_A, En11_AB = 0x3f, En11_Ba = 077u);
struct En11_Cls { uint64 g0; En11 m; uint8 g1; En11 a[3]; es::Flags<En11, uint8> f8; es::Flags<En11, uint64> f64; es::Flags<En11, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En11_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En12, ENUM, 0, En12_A, En12_AB = 1073741824, En12_Ba);
struct En12_Cls { uint64 g0; En12 m; uint8 g1; En12 a[3]; es::Flags<En12, uint8> f8; es::Flags<En12, uint64> f64; es::Flags<En12, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En12_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En13, ENUM, 0, En13_A, En13_AB = 1073741824, En13_Ba = 2147483647);
struct En13_Cls { uint64 g0; En13 m; uint8 g1; En13 a[3]; es::Flags<En13, uint8> f8; es::Flags<En13, uint64> f64; es::Flags<En13, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En13_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En14, ENUM, 0, En14_A, En14_AB = 1073741824, En14_Ba = 0x7fffffff);
struct En14_Cls { uint64 g0; En14 m; uint8 g1; En14 a[3]; es::Flags<En14, uint8> f8; es::Flags<En14, uint64> f64; es::Flags<En14, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En14_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En15, ENUM, 0, En15_A, En15_AB = 1073741824, En15_Ba = 077u);
struct En15_Cls { uint64 g0; En15 m; uint8 g1; En15 a[3]; es::Flags<En15, uint8> f8; es::Flags<En15, uint64> f64; es::Flags<En15, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En15_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En16, ENUM, 0, En16_A = 3, En16_AB, En16_Ba);
struct En16_Cls { uint64 g0; En16 m; uint8 g1; En16 a[3]; es::Flags<En16, uint8> f8; es::Flags<En16, uint64> f64; es::Flags<En16, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En16_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En17, ENUM, 0, En17_A = 3, En17_AB, En17_Ba = 2147483647);
struct En17_Cls { uint64 g0; En17 m; uint8 g1; En17 a[3]; es::Flags<En17, uint8> f8; es::Flags<En17, uint64> f64; es::Flags<En17, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En17_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En18, ENUM, 0, En18_A = 3, En18_AB, En18_Ba = 0x7fffffff);
struct En18_Cls { uint64 g0; En18 m; uint8 g1; En18 a[3]; es::Flags<En18, uint8> f8; es::Flags<En18, uint64> f64; es::Flags<En18, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En18_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En19, ENUM, 0, En19_A = 3, En19_AB, En19_Ba = 077u);
struct En19_Cls { uint64 g0; En19 m; uint8 g1; En19 a[3]; es::Flags<En19, uint8> f8; es::Flags<En19, uint64> f64; es::Flags<En19, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En19_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En20, ENUM, 0, En20_A = 3, En20_AB = 40, En20_Ba);
struct En20_Cls { uint64 g0; En20 m; uint8 g1; En20 a[3]; es::Flags<En20, uint8> f8; es::Flags<En20, uint64> f64; es::Flags<En20, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En20_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En21, ENUM, 0, En21_A = 3, En21_AB = 40, En21_Ba = 2147483647);
struct En21_Cls { uint64 g0; En21 m; uint8 g1; En21 a[3]; es::Flags<En21, uint8> f8; es::Flags<En21, uint64> f64; es::Flags<En21, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En21_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En22, ENUM, 0, En22_A = 3, En22_AB = 40, En22_Ba = 0x7fffffff);
struct En22_Cls { uint64 g0; En22 m; uint8 g1; En22 a[3]; es::Flags<En22, uint8> f8; es::Flags<En22, uint64> f64; es::Flags<En22, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En22_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En23, ENUM, 0, En23_A = 3, En23_AB = 40, En23_Ba = 077u);
struct En23_Cls { uint64 g0; En23 m; uint8 g1; En23 a[3]; es::Flags<En23, uint8> f8; es::Flags<En23, uint64> f64; es::Flags<En23, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En23_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En24, ENUM, 0, En24_A = 3, En24_AB = 0x3f, En24_Ba);
struct En24_Cls { uint64 g0; En24 m; uint8 g1; En24 a[3]; es::Flags<En24, uint8> f8; es::Flags<En24, uint64> f64; es::Flags<En24, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En24_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En25, ENUM, 0, En25_A = 3, En25_AB = 0x3f, En25_Ba = 2147483647);
struct En25_Cls { uint64 g0; En25 m; uint8 g1; En25 a[3]; es::Flags<En25, uint8> f8; es::Flags<En25, uint64> f64; es::Flags<En25, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En25_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En26, ENUM, 0, En26_A = 3, En26_AB = 0x3f, En26_Ba = 0x7fffffff);
struct En26_Cls { uint64 g0; En26 m; uint8 g1; En26 a[3]; es::Flags<En26, uint8> f8; es::Flags<En26, uint64> f64; es::Flags<En26, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En26_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En27, ENUM, 0, En27_A = 3, En27_AB = 0x3f, En27_Ba = 077u);
struct En27_Cls { uint64 g0; En27 m; uint8 g1; En27 a[3]; es::Flags<En27, uint8> f8; es::Flags<En27, uint64> f64; es::Flags<En27, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En27_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En28, ENUM, 0, En28_A = 3, En28_AB = 1073741824, En28_Ba);
struct En28_Cls { uint64 g0; En28 m; uint8 g1; En28 a[3]; es::Flags<En28, uint8> f8; es::Flags<En28, uint64> f64; es::Flags<En28, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En28_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En29, ENUM, 0, En29_A = 3, En29_AB = 1073741824, En29_Ba = 2147483647);
struct En29_Cls { uint64 g0; En29 m; uint8 g1; En29 a[3]; es::Flags<En29, uint8> f8; es::Flags<En29, uint64> f64; es::Flags<En29, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En29_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En30, ENUM, 0, En30_A = 3, En30_AB = 1073741824, En30_Ba = 0x7fffffff);
struct En30_Cls { uint64 g0; En30 m; uint8 g1; En30 a[3]; es::Flags<En30, uint8> f8; es::Flags<En30, uint64> f64; es::Flags<En30, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En30_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En31, ENUM, 0, En31_A = 3, En31_AB = 1073741824, En31_Ba = 077u);
struct En31_Cls { uint64 g0; En31 m; uint8 g1; En31 a[3]; es::Flags<En31, uint8> f8; es::Flags<En31, uint64> f64; es::Flags<En31, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En31_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En32, ENUM, 0, En32_A = 0x11, En32_AB, En32_Ba);
struct En32_Cls { uint64 g0; En32 m; uint8 g1; En32 a[3]; es::Flags<En32, uint8> f8; es::Flags<En32, uint64> f64; es::Flags<En32, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En32_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En33, ENUM, 0, En33_A = 0x11, En33_AB, En33_Ba = 2147483647);
struct En33_Cls { uint64 g0; En33 m; uint8 g1; En33 a[3]; es::Flags<En33, uint8> f8; es::Flags<En33, uint64> f64; es::Flags<En33, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En33_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En34, ENUM, 0, En34_A = 0x11, En34_AB, En34_Ba = 0x7fffffff);
struct En34_Cls { uint64 g0; En34 m; uint8 g1; En34 a[3]; es::Flags<En34, uint8> f8; es::Flags<En34, uint64> f64; es::Flags<En34, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En34_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En35, ENUM, 0, En35_A = 0x11, En35_AB, En35_Ba = 077u);
struct En35_Cls { uint64 g0; En35 m; uint8 g1; En35 a[3]; es::Flags<En35, uint8> f8; es::Flags<En35, uint64> f64; es::Flags<En35, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En35_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En36, ENUM, 0, En36_A = 0x11, En36_AB = 40, En36_Ba);
struct En36_Cls { uint64 g0; En36 m; uint8 g1; En36 a[3]; es::Flags<En36, uint8> f8; es::Flags<En36, uint64> f64; es::Flags<En36, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En36_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En37, ENUM, 0, En37_A = 0x11, En37_AB = 40, En37_Ba = 2147483647);
struct En37_Cls { uint64 g0; En37 m; uint8 g1; En37 a[3]; es::Flags<En37, uint8> f8; es::Flags<En37, uint64> f64; es::Flags<En37, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En37_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En38, ENUM, 0, En38_A = 0x11, En38_AB = 40, En38_Ba = 0x7fffffff);
struct En38_Cls { uint64 g0; En38 m; uint8 g1; En38 a[3]; es::Flags<En38, uint8> f8; es::Flags<En38, uint64> f64; es::Flags<En38, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En38_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En39, ENUM, 0, En39_A = 0x11, En39_AB = 40, En39_Ba = 077u);
struct En39_Cls { uint64 g0; En39 m; uint8 g1; En39 a[3]; es::Flags<En39, uint8> f8; es::Flags<En39, uint64> f64; es::Flags<En39, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En39_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En40, ENUM, 0, En40_A = 0x11, En40_AB = 0x3f, En40_Ba);
struct En40_Cls { uint64 g0; En40 m; uint8 g1; En40 a[3]; es::Flags<En40, uint8> f8; es::Flags<En40, uint64> f64; es::Flags<En40, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En40_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En41, ENUM, 0, En41_A = 0x11, En41_AB = 0x3f, En41_Ba = 2147483647);
struct En41_Cls { uint64 g0; En41 m; uint8 g1; En41 a[3]; es::Flags<En41, uint8> f8; es::Flags<En41, uint64> f64; es::Flags<En41, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En41_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En42, ENUM, 0, En42_A = 0x11, En42_AB = 0x3f, En42_Ba = 0x7fffffff);
struct En42_Cls { uint64 g0; En42 m; uint8 g1; En42 a[3]; es::Flags<En42, uint8> f8; es::Flags<En42, uint64> f64; es::Flags<En42, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En42_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En43, ENUM, 0, En43_A = 0x11, En43_AB = 0x3f, En43_Ba = 077u);
struct En43_Cls { uint64 g0; En43 m; uint8 g1; En43 a[3]; es::Flags<En43, uint8> f8; es::Flags<En43, uint64> f64; es::Flags<En43, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En43_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En44, ENUM, 0, En44_A = 0x11, En44_AB = 1073741824, En44_Ba);
struct En44_Cls { uint64 g0; En44 m; uint8 g1; En44 a[3]; es::Flags<En44, uint8> f8; es::Flags<En44, uint64> f64; es::Flags<En44, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En44_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En45, ENUM, 0, En45_A = 0x11, En45_AB = 1073741824, En45_Ba = 2147483647);
struct En45_Cls { uint64 g0; En45 m; uint8 g1; En45 a[3]; es::Flags<En45, uint8> f8; es::Flags<En45, uint64> f64; es::Flags<En45, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En45_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En46, ENUM, 0, En46_A = 0x11, En46_AB = 1073741824, En46_Ba = 0x7fffffff);
struct En46_Cls { uint64 g0; En46 m; uint8 g1; En46 a[3]; es::Flags<En46, uint8> f8; es::Flags<En46, uint64> f64; es::Flags<En46, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En46_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En47, ENUM, 0, En47_A = 0x11, En47_AB = 1073741824, En47_Ba = 077u);
struct En47_Cls { uint64 g0; En47 m; uint8 g1; En47 a[3]; es::Flags<En47, uint8> f8; es::Flags<En47, uint64> f64; es::Flags<En47, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En47_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En48, ENUM, 0, En48_A=1, En48_AB, En48_Ba);
struct En48_Cls { uint64 g0; En48 m; uint8 g1; En48 a[3]; es::Flags<En48, uint8> f8; es::Flags<En48, uint64> f64; es::Flags<En48, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En48_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En49, ENUM, 0, En49_A=1, En49_AB, En49_Ba = 2147483647);
struct En49_Cls { uint64 g0; En49 m; uint8 g1; En49 a[3]; es::Flags<En49, uint8> f8; es::Flags<En49, uint64> f64; es::Flags<En49, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En49_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En50, ENUM, 0, En50_A=1, En50_AB, En50_Ba = 0x7fffffff);
struct En50_Cls { uint64 g0; En50 m; uint8 g1; En50 a[3]; es::Flags<En50, uint8> f8; es::Flags<En50, uint64> f64; es::Flags<En50, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En50_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En51, ENUM, 0, En51_A=1, En51_AB, En51_Ba = 077u);
struct En51_Cls { uint64 g0; En51 m; uint8 g1; En51 a[3]; es::Flags<En51, uint8> f8; es::Flags<En51, uint64> f64; es::Flags<En51, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En51_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En52, ENUM, 0, En52_A=1, En52_AB = 40, En52_Ba);
struct En52_Cls { uint64 g0; En52 m; uint8 g1; En52 a[3]; es::Flags<En52, uint8> f8; es::Flags<En52, uint64> f64; es::Flags<En52, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En52_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En53, ENUM, 0, En53_A=1, En53_AB = 40, En53_Ba = 2147483647);
struct En53_Cls { uint64 g0; En53 m; uint8 g1; En53 a[3]; es::Flags<En53, uint8> f8; es::Flags<En53, uint64> f64; es::Flags<En53, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En53_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En54, ENUM, 0, En54_A=1, En54_AB = 40, En54_Ba = 0x7fffffff);
struct En54_Cls { uint64 g0; En54 m; uint8 g1; En54 a[3]; es::Flags<En54, uint8> f8; es::Flags<En54, uint64> f64; es::Flags<En54, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En54_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En55, ENUM, 0, En55_A=1, En55_AB = 40, En55_Ba = 077u);
struct En55_Cls { uint64 g0; En55 m; uint8 g1; En55 a[3]; es::Flags<En55, uint8> f8; es::Flags<En55, uint64> f64; es::Flags<En55, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En55_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En56, ENUM, 0, En56_A=1, En56_AB = 0x3f, En56_Ba);
struct En56_Cls { uint64 g0; En56 m; uint8 g1; En56 a[3]; es::Flags<En56, uint8> f8; es::Flags<En56, uint64> f64; es::Flags<En56, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En56_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En57, ENUM, 0, En57_A=1, En57_AB = 0x3f, En57_Ba = 2147483647);
struct En57_Cls { uint64 g0; En57 m; uint8 g1; En57 a[3]; es::Flags<En57, uint8> f8; es::Flags<En57, uint64> f64; es::Flags<En57, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En57_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En58, ENUM, 0, En58_A=1, En58_AB = 0x3f, En58_Ba = 0x7fffffff);
struct En58_Cls { uint64 g0; En58 m; uint8 g1; En58 a[3]; es::Flags<En58, uint8> f8; es::Flags<En58, uint64> f64; es::Flags<En58, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En58_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En59, ENUM, 0, En59_A=1, En59_AB = 0x3f, En59_Ba = 077u);
struct En59_Cls { uint64 g0; En59 m; uint8 g1; En59 a[3]; es::Flags<En59, uint8> f8; es::Flags<En59, uint64> f64; es::Flags<En59, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En59_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En60, ENUM, 0, En60_A=1, En60_AB = 1073741824, En60_Ba);
struct En60_Cls { uint64 g0; En60 m; uint8 g1; En60 a[3]; es::Flags<En60, uint8> f8; es::Flags<En60, uint64> f64; es::Flags<En60, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En60_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En61, ENUM, 0, En61_A=1, En61_AB = 1073741824, En61_Ba = 2147483647);
struct En61_Cls { uint64 g0; En61 m; uint8 g1; En61 a[3]; es::Flags<En61, uint8> f8; es::Flags<En61, uint64> f64; es::Flags<En61, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En61_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En62, ENUM, 0, En62_A=1, En62_AB = 1073741824, En62_Ba = 0x7fffffff);
struct En62_Cls { uint64 g0; En62 m; uint8 g1; En62 a[3]; es::Flags<En62, uint8> f8; es::Flags<En62, uint64> f64; es::Flags<En62, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En62_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En63, ENUM, 0, En63_A=1, En63_AB = 1073741824, En63_Ba = 077u);
struct En63_Cls { uint64 g0; En63 m; uint8 g1; En63 a[3]; es::Flags<En63, uint8> f8; es::Flags<En63, uint64> f64; es::Flags<En63, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En63_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En64, ENUM, 0, En64_A = 010, En64_AB, En64_Ba);
struct En64_Cls { uint64 g0; En64 m; uint8 g1; En64 a[3]; es::Flags<En64, uint8> f8; es::Flags<En64, uint64> f64; es::Flags<En64, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En64_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En65, ENUM, 0, En65_A = 010, En65_AB, En65_Ba = 2147483647);
struct En65_Cls { uint64 g0; En65 m; uint8 g1; En65 a[3]; es::Flags<En65, uint8> f8; es::Flags<En65, uint64> f64; es::Flags<En65, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En65_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En66, ENUM, 0, En66_A = 010, En66_AB, En66_Ba = 0x7fffffff);
struct En66_Cls { uint64 g0; En66 m; uint8 g1; En66 a[3]; es::Flags<En66, uint8> f8; es::Flags<En66, uint64> f64; es::Flags<En66, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En66_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En67, ENUM, 0, En67_A = 010, En67_AB, En67_Ba = 077u);
struct En67_Cls { uint64 g0; En67 m; uint8 g1; En67 a[3]; es::Flags<En67, uint8> f8; es::Flags<En67, uint64> f64; es::Flags<En67, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En67_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En68, ENUM, 0, En68_A = 010, En68_AB = 40, En68_Ba);
struct En68_Cls { uint64 g0; En68 m; uint8 g1; En68 a[3]; es::Flags<En68, uint8> f8; es::Flags<En68, uint64> f64; es::Flags<En68, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En68_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En69, ENUM, 0, En69_A = 010, En69_AB = 40, En69_Ba = 2147483647);
struct En69_Cls { uint64 g0; En69 m; uint8 g1; En69 a[3]; es::Flags<En69, uint8> f8; es::Flags<En69, uint64> f64; es::Flags<En69, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En69_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En70, ENUM, 0, En70_A = 010, En70_AB = 40, En70_Ba = 0x7fffffff);
struct En70_Cls { uint64 g0; En70 m; uint8 g1; En70 a[3]; es::Flags<En70, uint8> f8; es::Flags<En70, uint64> f64; es::Flags<En70, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En70_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En71, ENUM, 0, En71_A = 010, En71_AB = 40, En71_Ba = 077u);
struct En71_Cls { uint64 g0; En71 m; uint8 g1; En71 a[3]; es::Flags<En71, uint8> f8; es::Flags<En71, uint64> f64; es::Flags<En71, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En71_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En72, ENUM, 0, En72_A = 010, En72_AB = 0x3f, En72_Ba);
struct En72_Cls { uint64 g0; En72 m; uint8 g1; En72 a[3]; es::Flags<En72, uint8> f8; es::Flags<En72, uint64> f64; es::Flags<En72, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En72_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En73, ENUM, 0, En73_A = 010, En73_AB = 0x3f, En73_Ba = 2147483647);
struct En73_Cls { uint64 g0; En73 m; uint8 g1; En73 a[3]; es::Flags<En73, uint8> f8; es::Flags<En73, uint64> f64; es::Flags<En73, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En73_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En74, ENUM, 0, En74_A = 010, En74_AB = 0x3f, En74_Ba = 0x7fffffff);
struct En74_Cls { uint64 g0; En74 m; uint8 g1; En74 a[3]; es::Flags<En74, uint8> f8; es::Flags<En74, uint64> f64; es::Flags<En74, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En74_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En75, ENUM, 0, En75_A = 010, En75_AB = 0x3f, En75_Ba = 077u);
struct En75_Cls { uint64 g0; En75 m; uint8 g1; En75 a[3]; es::Flags<En75, uint8> f8; es::Flags<En75, uint64> f64; es::Flags<En75, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En75_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En76, ENUM, 0, En76_A = 010, En76_AB = 1073741824, En76_Ba);
struct En76_Cls { uint64 g0; En76 m; uint8 g1; En76 a[3]; es::Flags<En76, uint8> f8; es::Flags<En76, uint64> f64; es::Flags<En76, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En76_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En77, ENUM, 0, En77_A = 010, En77_AB = 1073741824, En77_Ba = 2147483647);
struct En77_Cls { uint64 g0; En77 m; uint8 g1; En77 a[3]; es::Flags<En77, uint8> f8; es::Flags<En77, uint64> f64; es::Flags<En77, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En77_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En78, ENUM, 0, En78_A = 010, En78_AB = 1073741824, En78_Ba = 0x7fffffff);
struct En78_Cls { uint64 g0; En78 m; uint8 g1; En78 a[3]; es::Flags<En78, uint8> f8; es::Flags<En78, uint64> f64; es::Flags<En78, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En78_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En79, ENUM, 0, En79_A = 010, En79_AB = 1073741824, En79_Ba = 077u);
struct En79_Cls { uint64 g0; En79 m; uint8 g1; En79 a[3]; es::Flags<En79, uint8> f8; es::Flags<En79, uint64> f64; es::Flags<En79, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En79_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En80, ENUM, 0, En80_A = -5, En80_AB, En80_Ba);
struct En80_Cls { uint64 g0; En80 m; uint8 g1; En80 a[3]; es::Flags<En80, uint8> f8; es::Flags<En80, uint64> f64; es::Flags<En80, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En80_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En81, ENUM, 0, En81_A = -5, En81_AB, En81_Ba = 2147483647);
struct En81_Cls { uint64 g0; En81 m; uint8 g1; En81 a[3]; es::Flags<En81, uint8> f8; es::Flags<En81, uint64> f64; es::Flags<En81, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En81_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En82, ENUM, 0, En82_A = -5, En82_AB, En82_Ba = 0x7fffffff);
struct En82_Cls { uint64 g0; En82 m; uint8 g1; En82 a[3]; es::Flags<En82, uint8> f8; es::Flags<En82, uint64> f64; es::Flags<En82, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En82_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En83, ENUM, 0, En83_A = -5, En83_AB, En83_Ba = 077u);
struct En83_Cls { uint64 g0; En83 m; uint8 g1; En83 a[3]; es::Flags<En83, uint8> f8; es::Flags<En83, uint64> f64; es::Flags<En83, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En83_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En84, ENUM, 0, En84_A = -5, En84_AB = 40, En84_Ba);
struct En84_Cls { uint64 g0; En84 m; uint8 g1; En84 a[3]; es::Flags<En84, uint8> f8; es::Flags<En84, uint64> f64; es::Flags<En84, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En84_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En85, ENUM, 0, En85_A = -5, En85_AB = 40, En85_Ba = 2147483647);
struct En85_Cls { uint64 g0; En85 m; uint8 g1; En85 a[3]; es::Flags<En85, uint8> f8; es::Flags<En85, uint64> f64; es::Flags<En85, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En85_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En86, ENUM, 0, En86_A = -5, En86_AB = 40, En86_Ba = 0x7fffffff);
struct En86_Cls { uint64 g0; En86 m; uint8 g1; En86 a[3]; es::Flags<En86, uint8> f8; es::Flags<En86, uint64> f64; es::Flags<En86, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En86_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En87, ENUM, 0, En87_A = -5, En87_AB = 40, En87_Ba = 077u);
struct En87_Cls { uint64 g0; En87 m; uint8 g1; En87 a[3]; es::Flags<En87, uint8> f8; es::Flags<En87, uint64> f64; es::Flags<En87, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En87_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En88, ENUM, 0, En88_A = -5, En88_AB = 0x3f, En88_Ba);
struct En88_Cls { uint64 g0; En88 m; uint8 g1; En88 a[3]; es::Flags<En88, uint8> f8; es::Flags<En88, uint64> f64; es::Flags<En88, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En88_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En89, ENUM, 0, En89_A = -5, En89_AB = 0x3f, En89_Ba = 2147483647);
struct En89_Cls { uint64 g0; En89 m; uint8 g1; En89 a[3]; es::Flags<En89, uint8> f8; es::Flags<En89, uint64> f64; es::Flags<En89, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En89_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En90, ENUM, 0, En90_A = -5, En90_AB = 0x3f, En90_Ba = 0x7fffffff);
struct En90_Cls { uint64 g0; En90 m; uint8 g1; En90 a[3]; es::Flags<En90, uint8> f8; es::Flags<En90, uint64> f64; es::Flags<En90, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En90_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En91, ENUM, 0, En91_A = -5, En91_AB = 0x3f, En91_Ba = 077u);
struct En91_Cls { uint64 g0; En91 m; uint8 g1; En91 a[3]; es::Flags<En91, uint8> f8; es::Flags<En91, uint64> f64; es::Flags<En91, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En91_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En92, ENUM, 0, En92_A = -5, En92_AB = 1073741824, En92_Ba);
struct En92_Cls { uint64 g0; En92 m; uint8 g1; En92 a[3]; es::Flags<En92, uint8> f8; es::Flags<En92, uint64> f64; es::Flags<En92, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En92_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En93, ENUM, 0, En93_A = -5, En93_AB = 1073741824, En93_Ba = 2147483647);
struct En93_Cls { uint64 g0; En93 m; uint8 g1; En93 a[3]; es::Flags<En93, uint8> f8; es::Flags<En93, uint64> f64; es::Flags<En93, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En93_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En94, ENUM, 0, En94_A = -5, En94_AB = 1073741824, En94_Ba = 0x7fffffff);
struct En94_Cls { uint64 g0; En94 m; uint8 g1; En94 a[3]; es::Flags<En94, uint8> f8; es::Flags<En94, uint64> f64; es::Flags<En94, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En94_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En95, ENUM, 0, En95_A = -5, En95_AB = 1073741824, En95_Ba = 077u);
struct En95_Cls { uint64 g0; En95 m; uint8 g1; En95 a[3]; es::Flags<En95, uint8> f8; es::Flags<En95, uint64> f64; es::Flags<En95, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En95_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En96, ENUM, 1, CLASS, En96_A, En96_AB, En96_Ba);
struct En96_Cls { uint64 g0; En96 m; uint8 g1; En96 a[3]; es::Flags<En96, uint8> f8; es::Flags<En96, uint64> f64; es::Flags<En96, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En96_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En97, ENUM, 1, CLASS, En97_A, En97_AB, En97_Ba = 2147483647);
struct En97_Cls { uint64 g0; En97 m; uint8 g1; En97 a[3]; es::Flags<En97, uint8> f8; es::Flags<En97, uint64> f64; es::Flags<En97, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En97_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En98, ENUM, 1, CLASS, En98_A, En98_AB, En98_Ba = 0x7fffffff);
struct En98_Cls { uint64 g0; En98 m; uint8 g1; En98 a[3]; es::Flags<En98, uint8> f8; es::Flags<En98, uint64> f64; es::Flags<En98, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En98_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En99, ENUM, 1, CLASS, En99_A, En99_AB, En99_Ba = 077u);
struct En99_Cls { uint64 g0; En99 m; uint8 g1; En99 a[3]; es::Flags<En99, uint8> f8; es::Flags<En99, uint64> f64; es::Flags<En99, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En99_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En100, ENUM, 1, CLASS, En100_A, En100_AB = 40, En100_Ba);
struct En100_Cls { uint64 g0; En100 m; uint8 g1; En100 a[3]; es::Flags<En100, uint8> f8; es::Flags<En100, uint64> f64; es::Flags<En100, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En100_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En101, ENUM, 1, CLASS, En101_A, En101_AB = 40, En101_Ba = 2147483647);
struct En101_Cls { uint64 g0; En101 m; uint8 g1; En101 a[3]; es::Flags<En101, uint8> f8; es::Flags<En101, uint64> f64; es::Flags<En101, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En101_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En102, ENUM, 1, CLASS, En102_A, En102_AB = 40, En102_Ba = 0x7fffffff);
struct En102_Cls { uint64 g0; En102 m; uint8 g1; En102 a[3]; es::Flags<En102, uint8> f8; es::Flags<En102, uint64> f64; es::Flags<En102, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En102_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En103, ENUM, 1, CLASS, En103_A, En103_AB = 40, En103_Ba = 077u);
struct En103_Cls { uint64 g0; En103 m; uint8 g1; En103 a[3]; es::Flags<En103, uint8> f8; es::Flags<En103, uint64> f64; es::Flags<En103, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En103_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En104, ENUM, 1, CLASS, En104_A, En104_AB = 0x3f, En104_Ba);
struct En104_Cls { uint64 g0; En104 m; uint8 g1; En104 a[3]; es::Flags<En104, uint8> f8; es::Flags<En104, uint64> f64; es::Flags<En104, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En104_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En105, ENUM, 1, CLASS, En105_A, En105_AB = 0x3f, En105_Ba = 2147483647);
struct En105_Cls { uint64 g0; En105 m; uint8 g1; En105 a[3]; es::Flags<En105, uint8> f8; es::Flags<En105, uint64> f64; es::Flags<En105, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En105_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En106, ENUM, 1, CLASS, En106_A, En106_AB = 0x3f, En106_Ba = 0x7fffffff);
struct En106_Cls { uint64 g0; En106 m; uint8 g1; En106 a[3]; es::Flags<En106, uint8> f8; es::Flags<En106, uint64> f64; es::Flags<En106, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En106_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En107, ENUM, 1, CLASS, En107_A, En107_AB = 0x3f, En107_Ba = 077u);
struct En107_Cls { uint64 g0; En107 m; uint8 g1; En107 a[3]; es::Flags<En107, uint8> f8; es::Flags<En107, uint64> f64; es::Flags<En107, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En107_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En108, ENUM, 1, CLASS, En108_A, En108_AB = 1073741824, En108_Ba);
struct En108_Cls { uint64 g0; En108 m; uint8 g1; En108 a[3]; es::Flags<En108, uint8> f8; es::Flags<En108, uint64> f64; es::Flags<En108, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En108_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En109, ENUM, 1, CLASS, En109_A, En109_AB = 1073741824, En109_Ba = 2147483647);
struct En109_Cls { uint64 g0; En109 m; uint8 g1; En109 a[3]; es::Flags<En109, uint8> f8; es::Flags<En109, uint64> f64; es::Flags<En109, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En109_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En110, ENUM, 1, CLASS, En110_A, En110_AB = 1073741824, En110_Ba = 0x7fffffff);
struct En110_Cls { uint64 g0; En110 m; uint8 g1; En110 a[3]; es::Flags<En110, uint8> f8; es::Flags<En110, uint64> f64; es::Flags<En110, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En110_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En111, ENUM, 1, CLASS, En111_A, En111_AB = 1073741824, En111_Ba = 077u);
struct En111_Cls { uint64 g0; En111 m; uint8 g1; En111 a[3]; es::Flags<En111, uint8> f8; es::Flags<En111, uint64> f64; es::Flags<En111, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En111_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En112, ENUM, 1, CLASS, En112_A = 3, En112_AB, En112_Ba);
struct En112_Cls { uint64 g0; En112 m; uint8 g1; En112 a[3]; es::Flags<En112, uint8> f8; es::Flags<En112, uint64> f64; es::Flags<En112, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En112_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En113, ENUM, 1, CLASS, En113_A = 3, En113_AB, En113_Ba = 2147483647);
struct En113_Cls { uint64 g0; En113 m; uint8 g1; En113 a[3]; es::Flags<En113, uint8> f8; es::Flags<En113, uint64> f64; es::Flags<En113, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En113_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En114, ENUM, 1, CLASS, En114_A = 3, En114_AB, En114_Ba = 0x7fffffff);
struct En114_Cls { uint64 g0; En114 m; uint8 g1; En114 a[3]; es::Flags<En114, uint8> f8; es::Flags<En114, uint64> f64; es::Flags<En114, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En114_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En115, ENUM, 1, CLASS, En115_A = 3, En115_AB, En115_Ba = 077u);
struct En115_Cls { uint64 g0; En115 m; uint8 g1; En115 a[3]; es::Flags<En115, uint8> f8; es::Flags<En115, uint64> f64; es::Flags<En115, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En115_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En116, ENUM, 1, CLASS, En116_A = 3, En116_AB = 40, En116_Ba);
struct En116_Cls { uint64 g0; En116 m; uint8 g1; En116 a[3]; es::Flags<En116, uint8> f8; es::Flags<En116, uint64> f64; es::Flags<En116, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En116_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En117, ENUM, 1, CLASS, En117_A = 3, En117_AB = 40, En117_Ba = 2147483647);
struct En117_Cls { uint64 g0; En117 m; uint8 g1; En117 a[3]; es::Flags<En117, uint8> f8; es::Flags<En117, uint64> f64; es::Flags<En117, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En117_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En118, ENUM, 1, CLASS, En118_A = 3, En118_AB = 40, En118_Ba = 0x7fffffff);
struct En118_Cls { uint64 g0; En118 m; uint8 g1; En118 a[3]; es::Flags<En118, uint8> f8; es::Flags<En118, uint64> f64; es::Flags<En118, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En118_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En119, ENUM, 1, CLASS, En119_A = 3, En119_AB = 40, En119_Ba = 077u);
struct En119_Cls { uint64 g0; En119 m; uint8 g1; En119 a[3]; es::Flags<En119, uint8> f8; es::Flags<En119, uint64> f64; es::Flags<En119, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En119_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En120, ENUM, 1, CLASS, En120_A = 3, En120_AB = 0x3f, En120_Ba);
struct En120_Cls { uint64 g0; En120 m; uint8 g1; En120 a[3]; es::Flags<En120, uint8> f8; es::Flags<En120, uint64> f64; es::Flags<En120, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En120_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En121, ENUM, 1, CLASS, En121_A = 3, En121_AB = 0x3f, En121_Ba = 2147483647);
struct En121_Cls { uint64 g0; En121 m; uint8 g1; En121 a[3]; es::Flags<En121, uint8> f8; es::Flags<En121, uint64> f64; es::Flags<En121, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En121_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En122, ENUM, 1, CLASS, En122_A = 3, En122_AB = 0x3f, En122_Ba = 0x7fffffff);
struct En122_Cls { uint64 g0; En122 m; uint8 g1; En122 a[3]; es::Flags<En122, uint8> f8; es::Flags<En122, uint64> f64; es::Flags<En122, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En122_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En123, ENUM, 1, CLASS, En123_A = 3, En123_AB = 0x3f, En123_Ba = 077u);
struct En123_Cls { uint64 g0; En123 m; uint8 g1; En123 a[3]; es::Flags<En123, uint8> f8; es::Flags<En123, uint64> f64; es::Flags<En123, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En123_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En124, ENUM, 1, CLASS, En124_A = 3, En124_AB = 1073741824, En124_Ba);
struct En124_Cls { uint64 g0; En124 m; uint8 g1; En124 a[3]; es::Flags<En124, uint8> f8; es::Flags<En124, uint64> f64; es::Flags<En124, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En124_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En125, ENUM, 1, CLASS, En125_A = 3, En125_AB = 1073741824, En125_Ba = 2147483647);
struct En125_Cls { uint64 g0; En125 m; uint8 g1; En125 a[3]; es::Flags<En125, uint8> f8; es::Flags<En125, uint64> f64; es::Flags<En125, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En125_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En126, ENUM, 1, CLASS, En126_A = 3, En126_AB = 1073741824, En126_Ba = 0x7fffffff);
struct En126_Cls { uint64 g0; En126 m; uint8 g1; En126 a[3]; es::Flags<En126, uint8> f8; es::Flags<En126, uint64> f64; es::Flags<En126, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En126_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En127, ENUM, 1, CLASS, En127_A = 3, En127_AB = 1073741824, En127_Ba = 077u);
struct En127_Cls { uint64 g0; En127 m; uint8 g1; En127 a[3]; es::Flags<En127, uint8> f8; es::Flags<En127, uint64> f64; es::Flags<En127, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En127_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En128, ENUM, 1, CLASS, En128_A = 0x11, En128_AB, En128_Ba);
struct En128_Cls { uint64 g0; En128 m; uint8 g1; En128 a[3]; es::Flags<En128, uint8> f8; es::Flags<En128, uint64> f64; es::Flags<En128, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En128_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En129, ENUM, 1, CLASS, En129_A = 0x11, En129_AB, En129_Ba = 2147483647);
struct En129_Cls { uint64 g0; En129 m; uint8 g1; En129 a[3]; es::Flags<En129, uint8> f8; es::Flags<En129, uint64> f64; es::Flags<En129, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En129_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En130, ENUM, 1, CLASS, En130_A = 0x11, En130_AB, En130_Ba = 0x7fffffff);
struct En130_Cls { uint64 g0; En130 m; uint8 g1; En130 a[3]; es::Flags<En130, uint8> f8; es::Flags<En130, uint64> f64; es::Flags<En130, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En130_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En131, ENUM, 1, CLASS, En131_A = 0x11, En131_AB, En131_Ba = 077u);
struct En131_Cls { uint64 g0; En131 m; uint8 g1; En131 a[3]; es::Flags<En131, uint8> f8; es::Flags<En131, uint64> f64; es::Flags<En131, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En131_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En132, ENUM, 1, CLASS, En132_A = 0x11, En132_AB = 40, En132_Ba);
struct En132_Cls { uint64 g0; En132 m; uint8 g1; En132 a[3]; es::Flags<En132, uint8> f8; es::Flags<En132, uint64> f64; es::Flags<En132, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En132_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En133, ENUM, 1, CLASS, En133_A = 0x11, En133_AB = 40, En133_Ba = 2147483647);
struct En133_Cls { uint64 g0; En133 m; uint8 g1; En133 a[3]; es::Flags<En133, uint8> f8; es::Flags<En133, uint64> f64; es::Flags<En133, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En133_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En134, ENUM, 1, CLASS, En134_A = 0x11, En134_AB = 40, En134_Ba = 0x7fffffff);
struct En134_Cls { uint64 g0; En134 m; uint8 g1; En134 a[3]; es::Flags<En134, uint8> f8; es::Flags<En134, uint64> f64; es::Flags<En134, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En134_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En135, ENUM, 1, CLASS, En135_A = 0x11, En135_AB = 40, En135_Ba = 077u);
struct En135_Cls { uint64 g0; En135 m; uint8 g1; En135 a[3]; es::Flags<En135, uint8> f8; es::Flags<En135, uint64> f64; es::Flags<En135, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En135_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En136, ENUM, 1, CLASS, En136_A = 0x11, En136_AB = 0x3f, En136_Ba);
struct En136_Cls { uint64 g0; En136 m; uint8 g1; En136 a[3]; es::Flags<En136, uint8> f8; es::Flags<En136, uint64> f64; es::Flags<En136, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En136_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En137, ENUM, 1, CLASS, En137_A = 0x11, En137_AB = 0x3f, En137_Ba = 2147483647);
struct En137_Cls { uint64 g0; En137 m; uint8 g1; En137 a[3]; es::Flags<En137, uint8> f8; es::Flags<En137, uint64> f64; es::Flags<En137, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En137_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En138, ENUM, 1, CLASS, En138_A = 0x11, En138_AB = 0x3f, En138_Ba = 0x7fffffff);
struct En138_Cls { uint64 g0; En138 m; uint8 g1; En138 a[3]; es::Flags<En138, uint8> f8; es::Flags<En138, uint64> f64; es::Flags<En138, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En138_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En139, ENUM, 1, CLASS, En139_A = 0x11, En139_AB = 0x3f, En139_Ba = 077u);
struct En139_Cls { uint64 g0; En139 m; uint8 g1; En139 a[3]; es::Flags<En139, uint8> f8; es::Flags<En139, uint64> f64; es::Flags<En139, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En139_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En140, ENUM, 1, CLASS, En140_A = 0x11, En140_AB = 1073741824, En140_Ba);
struct En140_Cls { uint64 g0; En140 m; uint8 g1; En140 a[3]; es::Flags<En140, uint8> f8; es::Flags<En140, uint64> f64; es::Flags<En140, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En140_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En141, ENUM, 1, CLASS, En141_A = 0x11, En141_AB = 1073741824, En141_Ba = 2147483647);
struct En141_Cls { uint64 g0; En141 m; uint8 g1; En141 a[3]; es::Flags<En141, uint8> f8; es::Flags<En141, uint64> f64; es::Flags<En141, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En141_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En142, ENUM, 1, CLASS, En142_A = 0x11, En142_AB = 1073741824, En142_Ba = 0x7fffffff);
struct En142_Cls { uint64 g0; En142 m; uint8 g1; En142 a[3]; es::Flags<En142, uint8> f8; es::Flags<En142, uint64> f64; es::Flags<En142, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En142_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En143, ENUM, 1, CLASS, En143_A = 0x11, En143_AB = 1073741824, En143_Ba = 077u);
struct En143_Cls { uint64 g0; En143 m; uint8 g1; En143 a[3]; es::Flags<En143, uint8> f8; es::Flags<En143, uint64> f64; es::Flags<En143, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En143_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En144, ENUM, 1, CLASS, En144_A=1, En144_AB, En144_Ba);
struct En144_Cls { uint64 g0; En144 m; uint8 g1; En144 a[3]; es::Flags<En144, uint8> f8; es::Flags<En144, uint64> f64; es::Flags<En144, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En144_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En145, ENUM, 1, CLASS, En145_A=1, En145_AB, En145_Ba = 2147483647);
struct En145_Cls { uint64 g0; En145 m; uint8 g1; En145 a[3]; es::Flags<En145, uint8> f8; es::Flags<En145, uint64> f64; es::Flags<En145, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En145_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En146, ENUM, 1, CLASS, En146_A=1, En146_AB, En146_Ba = 0x7fffffff);
struct En146_Cls { uint64 g0; En146 m; uint8 g1; En146 a[3]; es::Flags<En146, uint8> f8; es::Flags<En146, uint64> f64; es::Flags<En146, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En146_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En147, ENUM, 1, CLASS, En147_A=1, En147_AB, En147_Ba = 077u);
struct En147_Cls { uint64 g0; En147 m; uint8 g1; En147 a[3]; es::Flags<En147, uint8> f8; es::Flags<En147, uint64> f64; es::Flags<En147, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En147_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En148, ENUM, 1, CLASS, En148_A=1, En148_AB = 40, En148_Ba);
struct En148_Cls { uint64 g0; En148 m; uint8 g1; En148 a[3]; es::Flags<En148, uint8> f8; es::Flags<En148, uint64> f64; es::Flags<En148, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En148_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En149, ENUM, 1, CLASS, En149_A=1, En149_AB = 40, En149_Ba = 2147483647);
struct En149_Cls { uint64 g0; En149 m; uint8 g1; En149 a[3]; es::Flags<En149, uint8> f8; es::Flags<En149, uint64> f64; es::Flags<En149, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En149_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En150, ENUM, 1, CLASS, En150_A=1, En150_AB = 40, En150_Ba = 0x7fffffff);
struct En150_Cls { uint64 g0; En150 m; uint8 g1; En150 a[3]; es::Flags<En150, uint8> f8; es::Flags<En150, uint64> f64; es::Flags<En150, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En150_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En151, ENUM, 1, CLASS, En151_A=1, En151_AB = 40, En151_Ba = 077u);
struct En151_Cls { uint64 g0; En151 m; uint8 g1; En151 a[3]; es::Flags<En151, uint8> f8; es::Flags<En151, uint64> f64; es::Flags<En151, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En151_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En152, ENUM, 1, CLASS, En152_A=1, En152_AB = 0x3f, En152_Ba);
struct En152_Cls { uint64 g0; En152 m; uint8 g1; En152 a[3]; es::Flags<En152, uint8> f8; es::Flags<En152, uint64> f64; es::Flags<En152, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En152_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En153, ENUM, 1, CLASS, En153_A=1, En153_AB = 0x3f, En153_Ba = 2147483647);
struct En153_Cls { uint64 g0; En153 m; uint8 g1; En153 a[3]; es::Flags<En153, uint8> f8; es::Flags<En153, uint64> f64; es::Flags<En153, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En153_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En154, ENUM, 1, CLASS, En154_A=1, En154_AB = 0x3f, En154_Ba = 0x7fffffff);
struct En154_Cls { uint64 g0; En154 m; uint8 g1; En154 a[3]; es::Flags<En154, uint8> f8; es::Flags<En154, uint64> f64; es::Flags<En154, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En154_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En155, ENUM, 1, CLASS, En155_A=1, En155_AB = 0x3f, En155_Ba = 077u);
struct En155_Cls { uint64 g0; En155 m; uint8 g1; En155 a[3]; es::Flags<En155, uint8> f8; es::Flags<En155, uint64> f64; es::Flags<En155, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En155_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En156, ENUM, 1, CLASS, En156_A=1, En156_AB = 1073741824, En156_Ba);
struct En156_Cls { uint64 g0; En156 m; uint8 g1; En156 a[3]; es::Flags<En156, uint8> f8; es::Flags<En156, uint64> f64; es::Flags<En156, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En156_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En157, ENUM, 1, CLASS, En157_A=1, En157_AB = 1073741824, En157_Ba = 2147483647);
struct En157_Cls { uint64 g0; En157 m; uint8 g1; En157 a[3]; es::Flags<En157, uint8> f8; es::Flags<En157, uint64> f64; es::Flags<En157, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En157_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En158, ENUM, 1, CLASS, En158_A=1, En158_AB = 1073741824, En158_Ba = 0x7fffffff);
struct En158_Cls { uint64 g0; En158 m; uint8 g1; En158 a[3]; es::Flags<En158, uint8> f8; es::Flags<En158, uint64> f64; es::Flags<En158, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En158_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En159, ENUM, 1, CLASS, En159_A=1, En159_AB = 1073741824, En159_Ba = 077u);
struct En159_Cls { uint64 g0; En159 m; uint8 g1; En159 a[3]; es::Flags<En159, uint8> f8; es::Flags<En159, uint64> f64; es::Flags<En159, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En159_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En160, ENUM, 1, CLASS, En160_A = 010, En160_AB, En160_Ba);
struct En160_Cls { uint64 g0; En160 m; uint8 g1; En160 a[3]; es::Flags<En160, uint8> f8; es::Flags<En160, uint64> f64; es::Flags<En160, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En160_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En161, ENUM, 1, CLASS, En161_A = 010, En161_AB, En161_Ba = 2147483647);
struct En161_Cls { uint64 g0; En161 m; uint8 g1; En161 a[3]; es::Flags<En161, uint8> f8; es::Flags<En161, uint64> f64; es::Flags<En161, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En161_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En162, ENUM, 1, CLASS, En162_A = 010, En162_AB, En162_Ba = 0x7fffffff);
struct En162_Cls { uint64 g0; En162 m; uint8 g1; En162 a[3]; es::Flags<En162, uint8> f8; es::Flags<En162, uint64> f64; es::Flags<En162, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En162_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En163, ENUM, 1, CLASS, En163_A = 010, En163_AB, En163_Ba = 077u);
struct En163_Cls { uint64 g0; En163 m; uint8 g1; En163 a[3]; es::Flags<En163, uint8> f8; es::Flags<En163, uint64> f64; es::Flags<En163, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En163_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En164, ENUM, 1, CLASS, En164_A = 010, En164_AB = 40, En164_Ba);
struct En164_Cls { uint64 g0; En164 m; uint8 g1; En164 a[3]; es::Flags<En164, uint8> f8; es::Flags<En164, uint64> f64; es::Flags<En164, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En164_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En165, ENUM, 1, CLASS, En165_A = 010, En165_AB = 40, En165_Ba = 2147483647);
struct En165_Cls { uint64 g0; En165 m; uint8 g1; En165 a[3]; es::Flags<En165, uint8> f8; es::Flags<En165, uint64> f64; es::Flags<En165, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En165_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En166, ENUM, 1, CLASS, En166_A = 010, En166_AB = 40, En166_Ba = 0x7fffffff);
struct En166_Cls { uint64 g0; En166 m; uint8 g1; En166 a[3]; es::Flags<En166, uint8> f8; es::Flags<En166, uint64> f64; es::Flags<En166, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En166_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En167, ENUM, 1, CLASS, En167_A = 010, En167_AB = 40, En167_Ba = 077u);
struct En167_Cls { uint64 g0; En167 m; uint8 g1; En167 a[3]; es::Flags<En167, uint8> f8; es::Flags<En167, uint64> f64; es::Flags<En167, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En167_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En168, ENUM, 1, CLASS, En168_A = 010, En168_AB = 0x3f, En168_Ba);
struct En168_Cls { uint64 g0; En168 m; uint8 g1; En168 a[3]; es::Flags<En168, uint8> f8; es::Flags<En168, uint64> f64; es::Flags<En168, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En168_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En169, ENUM, 1, CLASS, En169_A = 010, En169_AB = 0x3f, En169_Ba = 2147483647);
struct En169_Cls { uint64 g0; En169 m; uint8 g1; En169 a[3]; es::Flags<En169, uint8> f8; es::Flags<En169, uint64> f64; es::Flags<En169, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En169_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En170, ENUM, 1, CLASS, En170_A = 010, En170_AB = 0x3f, En170_Ba = 0x7fffffff);
struct En170_Cls { uint64 g0; En170 m; uint8 g1; En170 a[3]; es::Flags<En170, uint8> f8; es::Flags<En170, uint64> f64; es::Flags<En170, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En170_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En171, ENUM, 1, CLASS, En171_A = 010, En171_AB = 0x3f, En171_Ba = 077u);
struct En171_Cls { uint64 g0; En171 m; uint8 g1; En171 a[3]; es::Flags<En171, uint8> f8; es::Flags<En171, uint64> f64; es::Flags<En171, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En171_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En172, ENUM, 1, CLASS, En172_A = 010, En172_AB = 1073741824, En172_Ba);
struct En172_Cls { uint64 g0; En172 m; uint8 g1; En172 a[3]; es::Flags<En172, uint8> f8; es::Flags<En172, uint64> f64; es::Flags<En172, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En172_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En173, ENUM, 1, CLASS, En173_A = 010, En173_AB = 1073741824, En173_Ba = 2147483647);
struct En173_Cls { uint64 g0; En173 m; uint8 g1; En173 a[3]; es::Flags<En173, uint8> f8; es::Flags<En173, uint64> f64; es::Flags<En173, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En173_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En174, ENUM, 1, CLASS, En174_A = 010, En174_AB = 1073741824, En174_Ba = 0x7fffffff);
struct En174_Cls { uint64 g0; En174 m; uint8 g1; En174 a[3]; es::Flags<En174, uint8> f8; es::Flags<En174, uint64> f64; es::Flags<En174, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En174_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En175, ENUM, 1, CLASS, En175_A = 010, En175_AB = 1073741824, En175_Ba = 077u);
struct En175_Cls { uint64 g0; En175 m; uint8 g1; En175 a[3]; es::Flags<En175, uint8> f8; es::Flags<En175, uint64> f64; es::Flags<En175, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En175_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En176, ENUM, 1, CLASS, En176_A = -5, En176_AB, En176_Ba);
struct En176_Cls { uint64 g0; En176 m; uint8 g1; En176 a[3]; es::Flags<En176, uint8> f8; es::Flags<En176, uint64> f64; es::Flags<En176, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En176_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En177, ENUM, 1, CLASS, En177_A = -5, En177_AB, En177_Ba = 2147483647);
struct En177_Cls { uint64 g0; En177 m; uint8 g1; En177 a[3]; es::Flags<En177, uint8> f8; es::Flags<En177, uint64> f64; es::Flags<En177, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En177_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En178, ENUM, 1, CLASS, En178_A = -5, En178_AB, En178_Ba = 0x7fffffff);
struct En178_Cls { uint64 g0; En178 m; uint8 g1; En178 a[3]; es::Flags<En178, uint8> f8; es::Flags<En178, uint64> f64; es::Flags<En178, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En178_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En179, ENUM, 1, CLASS, En179_A = -5, En179_AB, En179_Ba = 077u);
struct En179_Cls { uint64 g0; En179 m; uint8 g1; En179 a[3]; es::Flags<En179, uint8> f8; es::Flags<En179, uint64> f64; es::Flags<En179, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En179_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En180, ENUM, 1, CLASS, En180_A = -5, En180_AB = 40, En180_Ba);
struct En180_Cls { uint64 g0; En180 m; uint8 g1; En180 a[3]; es::Flags<En180, uint8> f8; es::Flags<En180, uint64> f64; es::Flags<En180, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En180_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En181, ENUM, 1, CLASS, En181_A = -5, En181_AB = 40, En181_Ba = 2147483647);
struct En181_Cls { uint64 g0; En181 m; uint8 g1; En181 a[3]; es::Flags<En181, uint8> f8; es::Flags<En181, uint64> f64; es::Flags<En181, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En181_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En182, ENUM, 1, CLASS, En182_A = -5, En182_AB = 40, En182_Ba = 0x7fffffff);
struct En182_Cls { uint64 g0; En182 m; uint8 g1; En182 a[3]; es::Flags<En182, uint8> f8; es::Flags<En182, uint64> f64; es::Flags<En182, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En182_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En183, ENUM, 1, CLASS, En183_A = -5, En183_AB = 40, En183_Ba = 077u);
struct En183_Cls { uint64 g0; En183 m; uint8 g1; En183 a[3]; es::Flags<En183, uint8> f8; es::Flags<En183, uint64> f64; es::Flags<En183, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En183_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En184, ENUM, 1, CLASS, En184_A = -5, En184_AB = 0x3f, En184_Ba);
struct En184_Cls { uint64 g0; En184 m; uint8 g1; En184 a[3]; es::Flags<En184, uint8> f8; es::Flags<En184, uint64> f64; es::Flags<En184, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En184_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En185, ENUM, 1, CLASS, En185_A = -5, En185_AB = 0x3f, En185_Ba = 2147483647);
struct En185_Cls { uint64 g0; En185 m; uint8 g1; En185 a[3]; es::Flags<En185, uint8> f8; es::Flags<En185, uint64> f64; es::Flags<En185, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En185_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En186, ENUM, 1, CLASS, En186_A = -5, En186_AB = 0x3f, En186_Ba = 0x7fffffff);
struct En186_Cls { uint64 g0; En186 m; uint8 g1; En186 a[3]; es::Flags<En186, uint8> f8; es::Flags<En186, uint64> f64; es::Flags<En186, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En186_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En187, ENUM, 1, CLASS, En187_A = -5, En187_AB = 0x3f, En187_Ba = 077u);
struct En187_Cls { uint64 g0; En187 m; uint8 g1; En187 a[3]; es::Flags<En187, uint8> f8; es::Flags<En187, uint64> f64; es::Flags<En187, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En187_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En188, ENUM, 1, CLASS, En188_A = -5, En188_AB = 1073741824, En188_Ba);
struct En188_Cls { uint64 g0; En188 m; uint8 g1; En188 a[3]; es::Flags<En188, uint8> f8; es::Flags<En188, uint64> f64; es::Flags<En188, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En188_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En189, ENUM, 1, CLASS, En189_A = -5, En189_AB = 1073741824, En189_Ba = 2147483647);
struct En189_Cls { uint64 g0; En189 m; uint8 g1; En189 a[3]; es::Flags<En189, uint8> f8; es::Flags<En189, uint64> f64; es::Flags<En189, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En189_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En190, ENUM, 1, CLASS, En190_A = -5, En190_AB = 1073741824, En190_Ba = 0x7fffffff);
struct En190_Cls { uint64 g0; En190 m; uint8 g1; En190 a[3]; es::Flags<En190, uint8> f8; es::Flags<En190, uint64> f64; es::Flags<En190, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En190_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En191, ENUM, 1, CLASS, En191_A = -5, En191_AB = 1073741824, En191_Ba = 077u);
struct En191_Cls { uint64 g0; En191 m; uint8 g1; En191 a[3]; es::Flags<En191, uint8> f8; es::Flags<En191, uint64> f64; es::Flags<En191, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En191_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En192, ENUM, 1, 8, En192_A, En192_AB, En192_Ba);
struct En192_Cls { uint64 g0; En192 m; uint8 g1; En192 a[3]; es::Flags<En192, uint8> f8; es::Flags<En192, uint64> f64; es::Flags<En192, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En192_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En193, ENUM, 1, 8, En193_A, En193_AB, En193_Ba = 255);
struct En193_Cls { uint64 g0; En193 m; uint8 g1; En193 a[3]; es::Flags<En193, uint8> f8; es::Flags<En193, uint64> f64; es::Flags<En193, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En193_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En194, ENUM, 1, 8, En194_A, En194_AB, En194_Ba = 0x7f);
struct En194_Cls { uint64 g0; En194 m; uint8 g1; En194 a[3]; es::Flags<En194, uint8> f8; es::Flags<En194, uint64> f64; es::Flags<En194, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En194_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En195, ENUM, 1, 8, En195_A, En195_AB, En195_Ba = 077u);
struct En195_Cls { uint64 g0; En195 m; uint8 g1; En195 a[3]; es::Flags<En195, uint8> f8; es::Flags<En195, uint64> f64; es::Flags<En195, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En195_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En196, ENUM, 1, 8, En196_A, En196_AB = 40, En196_Ba);
struct En196_Cls { uint64 g0; En196 m; uint8 g1; En196 a[3]; es::Flags<En196, uint8> f8; es::Flags<En196, uint64> f64; es::Flags<En196, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En196_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En197, ENUM, 1, 8, En197_A, En197_AB = 40, En197_Ba = 255);
struct En197_Cls { uint64 g0; En197 m; uint8 g1; En197 a[3]; es::Flags<En197, uint8> f8; es::Flags<En197, uint64> f64; es::Flags<En197, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En197_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En198, ENUM, 1, 8, En198_A, En198_AB = 40, En198_Ba = 0x7f);
struct En198_Cls { uint64 g0; En198 m; uint8 g1; En198 a[3]; es::Flags<En198, uint8> f8; es::Flags<En198, uint64> f64; es::Flags<En198, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En198_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En199, ENUM, 1, 8, En199_A, En199_AB = 40, En199_Ba = 077u);
struct En199_Cls { uint64 g0; En199 m; uint8 g1; En199 a[3]; es::Flags<En199, uint8> f8; es::Flags<En199, uint64> f64; es::Flags<En199, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En199_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En200, ENUM, 1, 8, En200_A, En200_AB = 0x3f, En200_Ba);
struct En200_Cls { uint64 g0; En200 m; uint8 g1; En200 a[3]; es::Flags<En200, uint8> f8; es::Flags<En200, uint64> f64; es::Flags<En200, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En200_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En201, ENUM, 1, 8, En201_A, En201_AB = 0x3f, En201_Ba = 255);
struct En201_Cls { uint64 g0; En201 m; uint8 g1; En201 a[3]; es::Flags<En201, uint8> f8; es::Flags<En201, uint64> f64; es::Flags<En201, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En201_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En202, ENUM, 1, 8, En202_A, En202_AB = 0x3f, En202_Ba = 0x7f);
struct En202_Cls { uint64 g0; En202 m; uint8 g1; En202 a[3]; es::Flags<En202, uint8> f8; es::Flags<En202, uint64> f64; es::Flags<En202, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En202_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En203, ENUM, 1, 8, En203_A, En203_AB = 0x3f, En203_Ba = 077u);
struct En203_Cls { uint64 g0; En203 m; uint8 g1; En203 a[3]; es::Flags<En203, uint8> f8; es::Flags<En203, uint64> f64; es::Flags<En203, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En203_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En204, ENUM, 1, 8, En204_A, En204_AB = 64, En204_Ba);
struct En204_Cls { uint64 g0; En204 m; uint8 g1; En204 a[3]; es::Flags<En204, uint8> f8; es::Flags<En204, uint64> f64; es::Flags<En204, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En204_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En205, ENUM, 1, 8, En205_A, En205_AB = 64, En205_Ba = 255);
struct En205_Cls { uint64 g0; En205 m; uint8 g1; En205 a[3]; es::Flags<En205, uint8> f8; es::Flags<En205, uint64> f64; es::Flags<En205, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En205_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En206, ENUM, 1, 8, En206_A, En206_AB = 64, En206_Ba = 0x7f);
struct En206_Cls { uint64 g0; En206 m; uint8 g1; En206 a[3]; es::Flags<En206, uint8> f8; es::Flags<En206, uint64> f64; es::Flags<En206, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En206_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En207, ENUM, 1, 8, En207_A, En207_AB = 64, En207_Ba = 077u);
struct En207_Cls { uint64 g0; En207 m; uint8 g1; En207 a[3]; es::Flags<En207, uint8> f8; es::Flags<En207, uint64> f64; es::Flags<En207, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En207_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En208, ENUM, 1, 8, En208_A = 3, En208_AB, En208_Ba);
struct En208_Cls { uint64 g0; En208 m; uint8 g1; En208 a[3]; es::Flags<En208, uint8> f8; es::Flags<En208, uint64> f64; es::Flags<En208, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En208_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En209, ENUM, 1, 8, En209_A = 3, En209_AB, En209_Ba = 255);
struct En209_Cls { uint64 g0; En209 m; uint8 g1; En209 a[3]; es::Flags<En209, uint8> f8; es::Flags<En209, uint64> f64; es::Flags<En209, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En209_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En210, ENUM, 1, 8, En210_A = 3, En210_AB, En210_Ba = 0x7f);
struct En210_Cls { uint64 g0; En210 m; uint8 g1; En210 a[3]; es::Flags<En210, uint8> f8; es::Flags<En210, uint64> f64; es::Flags<En210, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En210_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En211, ENUM, 1, 8, En211_A = 3, En211_AB, En211_Ba = 077u);
struct En211_Cls { uint64 g0; En211 m; uint8 g1; En211 a[3]; es::Flags<En211, uint8> f8; es::Flags<En211, uint64> f64; es::Flags<En211, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En211_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En212, ENUM, 1, 8, En212_A = 3, En212_AB = 40, En212_Ba);
struct En212_Cls { uint64 g0; En212 m; uint8 g1; En212 a[3]; es::Flags<En212, uint8> f8; es::Flags<En212, uint64> f64; es::Flags<En212, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En212_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En213, ENUM, 1, 8, En213_A = 3, En213_AB = 40, En213_Ba = 255);
struct En213_Cls { uint64 g0; En213 m; uint8 g1; En213 a[3]; es::Flags<En213, uint8> f8; es::Flags<En213, uint64> f64; es::Flags<En213, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En213_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En214, ENUM, 1, 8, En214_A = 3, En214_AB = 40, En214_Ba = 0x7f);
struct En214_Cls { uint64 g0; En214 m; uint8 g1; En214 a[3]; es::Flags<En214, uint8> f8; es::Flags<En214, uint64> f64; es::Flags<En214, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En214_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En215, ENUM, 1, 8, En215_A = 3, En215_AB = 40, En215_Ba = 077u);
struct En215_Cls { uint64 g0; En215 m; uint8 g1; En215 a[3]; es::Flags<En215, uint8> f8; es::Flags<En215, uint64> f64; es::Flags<En215, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En215_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En216, ENUM, 1, 8, En216_A = 3, En216_AB = 0x3f, En216_Ba);
struct En216_Cls { uint64 g0; En216 m; uint8 g1; En216 a[3]; es::Flags<En216, uint8> f8; es::Flags<En216, uint64> f64; es::Flags<En216, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En216_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En217, ENUM, 1, 8, En217_A = 3, En217_AB = 0x3f, En217_Ba = 255);
struct En217_Cls { uint64 g0; En217 m; uint8 g1; En217 a[3]; es::Flags<En217, uint8> f8; es::Flags<En217, uint64> f64; es::Flags<En217, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En217_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En218, ENUM, 1, 8, En218_A = 3, En218_AB = 0x3f, En218_Ba = 0x7f);
struct En218_Cls { uint64 g0; En218 m; uint8 g1; En218 a[3]; es::Flags<En218, uint8> f8; es::Flags<En218, uint64> f64; es::Flags<En218, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En218_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En219, ENUM, 1, 8, En219_A = 3, En219_AB = 0x3f, En219_Ba = 077u);
struct En219_Cls { uint64 g0; En219 m; uint8 g1; En219 a[3]; es::Flags<En219, uint8> f8; es::Flags<En219, uint64> f64; es::Flags<En219, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En219_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En220, ENUM, 1, 8, En220_A = 3, En220_AB = 64, En220_Ba);
struct En220_Cls { uint64 g0; En220 m; uint8 g1; En220 a[3]; es::Flags<En220, uint8> f8; es::Flags<En220, uint64> f64; es::Flags<En220, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En220_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En221, ENUM, 1, 8, En221_A = 3, En221_AB = 64, En221_Ba = 255);
struct En221_Cls { uint64 g0; En221 m; uint8 g1; En221 a[3]; es::Flags<En221, uint8> f8; es::Flags<En221, uint64> f64; es::Flags<En221, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En221_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En222, ENUM, 1, 8, En222_A = 3, En222_AB = 64, En222_Ba = 0x7f);
struct En222_Cls { uint64 g0; En222 m; uint8 g1; En222 a[3]; es::Flags<En222, uint8> f8; es::Flags<En222, uint64> f64; es::Flags<En222, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En222_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En223, ENUM, 1, 8, En223_A = 3, En223_AB = 64, En223_Ba = 077u);
struct En223_Cls { uint64 g0; En223 m; uint8 g1; En223 a[3]; es::Flags<En223, uint8> f8; es::Flags<En223, uint64> f64; es::Flags<En223, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En223_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En224, ENUM, 1, 8, En224_A = 0x11, En224_AB, En224_Ba);
struct En224_Cls { uint64 g0; En224 m; uint8 g1; En224 a[3]; es::Flags<En224, uint8> f8; es::Flags<En224, uint64> f64; es::Flags<En224, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En224_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En225, ENUM, 1, 8, En225_A = 0x11, En225_AB, En225_Ba = 255);
struct En225_Cls { uint64 g0; En225 m; uint8 g1; En225 a[3]; es::Flags<En225, uint8> f8; es::Flags<En225, uint64> f64; es::Flags<En225, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En225_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En226, ENUM, 1, 8, En226_A = 0x11, En226_AB, En226_Ba = 0x7f);
struct En226_Cls { uint64 g0; En226 m; uint8 g1; En226 a[3]; es::Flags<En226, uint8> f8; es::Flags<En226, uint64> f64; es::Flags<En226, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En226_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En227, ENUM, 1, 8, En227_A = 0x11, En227_AB, En227_Ba = 077u);
struct En227_Cls { uint64 g0; En227 m; uint8 g1; En227 a[3]; es::Flags<En227, uint8> f8; es::Flags<En227, uint64> f64; es::Flags<En227, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En227_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En228, ENUM, 1, 8, En228_A = 0x11, En228_AB = 40, En228_Ba);
struct En228_Cls { uint64 g0; En228 m; uint8 g1; En228 a[3]; es::Flags<En228, uint8> f8; es::Flags<En228, uint64> f64; es::Flags<En228, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En228_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En229, ENUM, 1, 8, En229_A = 0x11, En229_AB = 40, En229_Ba = 255);
struct En229_Cls { uint64 g0; En229 m; uint8 g1; En229 a[3]; es::Flags<En229, uint8> f8; es::Flags<En229, uint64> f64; es::Flags<En229, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En229_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En230, ENUM, 1, 8, En230_A = 0x11, En230_AB = 40, En230_Ba = 0x7f);
struct En230_Cls { uint64 g0; En230 m; uint8 g1; En230 a[3]; es::Flags<En230, uint8> f8; es::Flags<En230, uint64> f64; es::Flags<En230, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En230_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En231, ENUM, 1, 8, En231_A = 0x11, En231_AB = 40, En231_Ba = 077u);
struct En231_Cls { uint64 g0; En231 m; uint8 g1; En231 a[3]; es::Flags<En231, uint8> f8; es::Flags<En231, uint64> f64; es::Flags<En231, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En231_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En232, ENUM, 1, 8, En232_A = 0x11, En232_AB = 0x3f, En232_Ba);
struct En232_Cls { uint64 g0; En232 m; uint8 g1; En232 a[3]; es::Flags<En232, uint8> f8; es::Flags<En232, uint64> f64; es::Flags<En232, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En232_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En233, ENUM, 1, 8, En233_A = 0x11, En233_AB = 0x3f, En233_Ba = 255);
struct En233_Cls { uint64 g0; En233 m; uint8 g1; En233 a[3]; es::Flags<En233, uint8> f8; es::Flags<En233, uint64> f64; es::Flags<En233, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En233_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En234, ENUM, 1, 8, En234_A = 0x11, En234_AB = 0x3f, En234_Ba = 0x7f);
struct En234_Cls { uint64 g0; En234 m; uint8 g1; En234 a[3]; es::Flags<En234, uint8> f8; es::Flags<En234, uint64> f64; es::Flags<En234, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En234_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En235, ENUM, 1, 8, En235_A = 0x11, En235_AB = 0x3f, En235_Ba = 077u);
struct En235_Cls { uint64 g0; En235 m; uint8 g1; En235 a[3]; es::Flags<En235, uint8> f8; es::Flags<En235, uint64> f64; es::Flags<En235, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En235_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En236, ENUM, 1, 8, En236_A = 0x11, En236_AB = 64, En236_Ba);
struct En236_Cls { uint64 g0; En236 m; uint8 g1; En236 a[3]; es::Flags<En236, uint8> f8; es::Flags<En236, uint64> f64; es::Flags<En236, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En236_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En237, ENUM, 1, 8, En237_A = 0x11, En237_AB = 64, En237_Ba = 255);
struct En237_Cls { uint64 g0; En237 m; uint8 g1; En237 a[3]; es::Flags<En237, uint8> f8; es::Flags<En237, uint64> f64; es::Flags<En237, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En237_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En238, ENUM, 1, 8, En238_A = 0x11, En238_AB = 64, En238_Ba = 0x7f);
struct En238_Cls { uint64 g0; En238 m; uint8 g1; En238 a[3]; es::Flags<En238, uint8> f8; es::Flags<En238, uint64> f64; es::Flags<En238, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En238_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En239, ENUM, 1, 8, En239_A = 0x11, En239_AB = 64, En239_Ba = 077u);
struct En239_Cls { uint64 g0; En239 m; uint8 g1; En239 a[3]; es::Flags<En239, uint8> f8; es::Flags<En239, uint64> f64; es::Flags<En239, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En239_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En240, ENUM, 1, 8, En240_A=1, En240_AB, En240_Ba);
struct En240_Cls { uint64 g0; En240 m; uint8 g1; En240 a[3]; es::Flags<En240, uint8> f8; es::Flags<En240, uint64> f64; es::Flags<En240, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En240_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En241, ENUM, 1, 8, En241_A=1, En241_AB, En241_Ba = 255);
struct En241_Cls { uint64 g0; En241 m; uint8 g1; En241 a[3]; es::Flags<En241, uint8> f8; es::Flags<En241, uint64> f64; es::Flags<En241, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En241_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En242, ENUM, 1, 8, En242_A=1, En242_AB, En242_Ba = 0x7f);
struct En242_Cls { uint64 g0; En242 m; uint8 g1; En242 a[3]; es::Flags<En242, uint8> f8; es::Flags<En242, uint64> f64; es::Flags<En242, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En242_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En243, ENUM, 1, 8, En243_A=1, En243_AB, En243_Ba = 077u);
struct En243_Cls { uint64 g0; En243 m; uint8 g1; En243 a[3]; es::Flags<En243, uint8> f8; es::Flags<En243, uint64> f64; es::Flags<En243, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En243_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En244, ENUM, 1, 8, En244_A=1, En244_AB = 40, En244_Ba);
struct En244_Cls { uint64 g0; En244 m; uint8 g1; En244 a[3]; es::Flags<En244, uint8> f8; es::Flags<En244, uint64> f64; es::Flags<En244, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En244_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En245, ENUM, 1, 8, En245_A=1, En245_AB = 40, En245_Ba = 255);
struct En245_Cls { uint64 g0; En245 m; uint8 g1; En245 a[3]; es::Flags<En245, uint8> f8; es::Flags<En245, uint64> f64; es::Flags<En245, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En245_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En246, ENUM, 1, 8, En246_A=1, En246_AB = 40, En246_Ba = 0x7f);
struct En246_Cls { uint64 g0; En246 m; uint8 g1; En246 a[3]; es::Flags<En246, uint8> f8; es::Flags<En246, uint64> f64; es::Flags<En246, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En246_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En247, ENUM, 1, 8, En247_A=1, En247_AB = 40, En247_Ba = 077u);
struct En247_Cls { uint64 g0; En247 m; uint8 g1; En247 a[3]; es::Flags<En247, uint8> f8; es::Flags<En247, uint64> f64; es::Flags<En247, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En247_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En248, ENUM, 1, 8, En248_A=1, En248_AB = 0x3f, En248_Ba);
struct En248_Cls { uint64 g0; En248 m; uint8 g1; En248 a[3]; es::Flags<En248, uint8> f8; es::Flags<En248, uint64> f64; es::Flags<En248, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En248_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En249, ENUM, 1, 8, En249_A=1, En249_AB = 0x3f, En249_Ba = 255);
struct En249_Cls { uint64 g0; En249 m; uint8 g1; En249 a[3]; es::Flags<En249, uint8> f8; es::Flags<En249, uint64> f64; es::Flags<En249, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En249_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En250, ENUM, 1, 8, En250_A=1, En250_AB = 0x3f, En250_Ba = 0x7f);
struct En250_Cls { uint64 g0; En250 m; uint8 g1; En250 a[3]; es::Flags<En250, uint8> f8; es::Flags<En250, uint64> f64; es::Flags<En250, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En250_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En251, ENUM, 1, 8, En251_A=1, En251_AB = 0x3f, En251_Ba = 077u);
struct En251_Cls { uint64 g0; En251 m; uint8 g1; En251 a[3]; es::Flags<En251, uint8> f8; es::Flags<En251, uint64> f64; es::Flags<En251, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En251_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En252, ENUM, 1, 8, En252_A=1, En252_AB = 64, En252_Ba);
struct En252_Cls { uint64 g0; En252 m; uint8 g1; En252 a[3]; es::Flags<En252, uint8> f8; es::Flags<En252, uint64> f64; es::Flags<En252, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En252_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En253, ENUM, 1, 8, En253_A=1, En253_AB = 64, En253_Ba = 255);
struct En253_Cls { uint64 g0; En253 m; uint8 g1; En253 a[3]; es::Flags<En253, uint8> f8; es::Flags<En253, uint64> f64; es::Flags<En253, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En253_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En254, ENUM, 1, 8, En254_A=1, En254_AB = 64, En254_Ba = 0x7f);
struct En254_Cls { uint64 g0; En254 m; uint8 g1; En254 a[3]; es::Flags<En254, uint8> f8; es::Flags<En254, uint64> f64; es::Flags<En254, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En254_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En255, ENUM, 1, 8, En255_A=1, En255_AB = 64, En255_Ba = 077u);
struct En255_Cls { uint64 g0; En255 m; uint8 g1; En255 a[3]; es::Flags<En255, uint8> f8; es::Flags<En255, uint64> f64; es::Flags<En255, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En255_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En256, ENUM, 1, 8, En256_A = 010, En256_AB, En256_Ba);
struct En256_Cls { uint64 g0; En256 m; uint8 g1; En256 a[3]; es::Flags<En256, uint8> f8; es::Flags<En256, uint64> f64; es::Flags<En256, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En256_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En257, ENUM, 1, 8, En257_A = 010, En257_AB, En257_Ba = 255);
struct En257_Cls { uint64 g0; En257 m; uint8 g1; En257 a[3]; es::Flags<En257, uint8> f8; es::Flags<En257, uint64> f64; es::Flags<En257, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En257_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En258, ENUM, 1, 8, En258_A = 010, En258_AB, En258_Ba = 0x7f);
struct En258_Cls { uint64 g0; En258 m; uint8 g1; En258 a[3]; es::Flags<En258, uint8> f8; es::Flags<En258, uint64> f64; es::Flags<En258, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En258_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En259, ENUM, 1, 8, En259_A = 010, En259_AB, En259_Ba = 077u);
struct En259_Cls { uint64 g0; En259 m; uint8 g1; En259 a[3]; es::Flags<En259, uint8> f8; es::Flags<En259, uint64> f64; es::Flags<En259, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En259_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En260, ENUM, 1, 8, En260_A = 010, En260_AB = 40, En260_Ba);
struct En260_Cls { uint64 g0; En260 m; uint8 g1; En260 a[3]; es::Flags<En260, uint8> f8; es::Flags<En260, uint64> f64; es::Flags<En260, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En260_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En261, ENUM, 1, 8, En261_A = 010, En261_AB = 40, En261_Ba = 255);
struct En261_Cls { uint64 g0; En261 m; uint8 g1; En261 a[3]; es::Flags<En261, uint8> f8; es::Flags<En261, uint64> f64; es::Flags<En261, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En261_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En262, ENUM, 1, 8, En262_A = 010, En262_AB = 40, En262_Ba = 0x7f);
struct En262_Cls { uint64 g0; En262 m; uint8 g1; En262 a[3]; es::Flags<En262, uint8> f8; es::Flags<En262, uint64> f64; es::Flags<En262, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En262_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En263, ENUM, 1, 8, En263_A = 010, En263_AB = 40, En263_Ba = 077u);
struct En263_Cls { uint64 g0; En263 m; uint8 g1; En263 a[3]; es::Flags<En263, uint8> f8; es::Flags<En263, uint64> f64; es::Flags<En263, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En263_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En264, ENUM, 1, 8, En264_A = 010, En264_AB = 0x3f, En264_Ba);
struct En264_Cls { uint64 g0; En264 m; uint8 g1; En264 a[3]; es::Flags<En264, uint8> f8; es::Flags<En264, uint64> f64; es::Flags<En264, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En264_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En265, ENUM, 1, 8, En265_A = 010, En265_AB = 0x3f, En265_Ba = 255);
struct En265_Cls { uint64 g0; En265 m; uint8 g1; En265 a[3]; es::Flags<En265, uint8> f8; es::Flags<En265, uint64> f64; es::Flags<En265, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En265_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En266, ENUM, 1, 8, En266_A = 010, En266_AB = 0x3f, En266_Ba = 0x7f);
struct En266_Cls { uint64 g0; En266 m; uint8 g1; En266 a[3]; es::Flags<En266, uint8> f8; es::Flags<En266, uint64> f64; es::Flags<En266, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En266_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En267, ENUM, 1, 8, En267_A = 010, En267_AB = 0x3f, En267_Ba = 077u);
struct En267_Cls { uint64 g0; En267 m; uint8 g1; En267 a[3]; es::Flags<En267, uint8> f8; es::Flags<En267, uint64> f64; es::Flags<En267, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En267_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En268, ENUM, 1, 8, En268_A = 010, En268_AB = 64, En268_Ba);
struct En268_Cls { uint64 g0; En268 m; uint8 g1; En268 a[3]; es::Flags<En268, uint8> f8; es::Flags<En268, uint64> f64; es::Flags<En268, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En268_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En269, ENUM, 1, 8, En269_A = 010, En269_AB = 64, En269_Ba = 255);
struct En269_Cls { uint64 g0; En269 m; uint8 g1; En269 a[3]; es::Flags<En269, uint8> f8; es::Flags<En269, uint64> f64; es::Flags<En269, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En269_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En270, ENUM, 1, 8, En270_A = 010, En270_AB = 64, En270_Ba = 0x7f);
struct En270_Cls { uint64 g0; En270 m; uint8 g1; En270 a[3]; es::Flags<En270, uint8> f8; es::Flags<En270, uint64> f64; es::Flags<En270, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En270_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En271, ENUM, 1, 8, En271_A = 010, En271_AB = 64, En271_Ba = 077u);
struct En271_Cls { uint64 g0; En271 m; uint8 g1; En271 a[3]; es::Flags<En271, uint8> f8; es::Flags<En271, uint64> f64; es::Flags<En271, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En271_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En272, ENUM, 1, 8, En272_A = 0X1f, En272_AB, En272_Ba);
struct En272_Cls { uint64 g0; En272 m; uint8 g1; En272 a[3]; es::Flags<En272, uint8> f8; es::Flags<En272, uint64> f64; es::Flags<En272, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En272_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En273, ENUM, 1, 8, En273_A = 0X1f, En273_AB, En273_Ba = 255);
struct En273_Cls { uint64 g0; En273 m; uint8 g1; En273 a[3]; es::Flags<En273, uint8> f8; es::Flags<En273, uint64> f64; es::Flags<En273, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En273_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En274, ENUM, 1, 8, En274_A = 0X1f, En274_AB, En274_Ba = 0x7f);
struct En274_Cls { uint64 g0; En274 m; uint8 g1; En274 a[3]; es::Flags<En274, uint8> f8; es::Flags<En274, uint64> f64; es::Flags<En274, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En274_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En275, ENUM, 1, 8, En275_A = 0X1f, En275_AB, En275_Ba = 077u);
struct En275_Cls { uint64 g0; En275 m; uint8 g1; En275 a[3]; es::Flags<En275, uint8> f8; es::Flags<En275, uint64> f64; es::Flags<En275, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En275_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En276, ENUM, 1, 8, En276_A = 0X1f, En276_AB = 40, En276_Ba);
struct En276_Cls { uint64 g0; En276 m; uint8 g1; En276 a[3]; es::Flags<En276, uint8> f8; es::Flags<En276, uint64> f64; es::Flags<En276, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En276_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En277, ENUM, 1, 8, En277_A = 0X1f, En277_AB = 40, En277_Ba = 255);
struct En277_Cls { uint64 g0; En277 m; uint8 g1; En277 a[3]; es::Flags<En277, uint8> f8; es::Flags<En277, uint64> f64; es::Flags<En277, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En277_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En278, ENUM, 1, 8, En278_A = 0X1f, En278_AB = 40, En278_Ba = 0x7f);
struct En278_Cls { uint64 g0; En278 m; uint8 g1; En278 a[3]; es::Flags<En278, uint8> f8; es::Flags<En278, uint64> f64; es::Flags<En278, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En278_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En279, ENUM, 1, 8, En279_A = 0X1f, En279_AB = 40, En279_Ba = 077u);
struct En279_Cls { uint64 g0; En279 m; uint8 g1; En279 a[3]; es::Flags<En279, uint8> f8; es::Flags<En279, uint64> f64; es::Flags<En279, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En279_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En280, ENUM, 1, 8, En280_A = 0X1f, En280_AB = 0x3f, En280_Ba);
struct En280_Cls { uint64 g0; En280 m; uint8 g1; En280 a[3]; es::Flags<En280, uint8> f8; es::Flags<En280, uint64> f64; es::Flags<En280, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En280_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En281, ENUM, 1, 8, En281_A = 0X1f, En281_AB = 0x3f, En281_Ba = 255);
struct En281_Cls { uint64 g0; En281 m; uint8 g1; En281 a[3]; es::Flags<En281, uint8> f8; es::Flags<En281, uint64> f64; es::Flags<En281, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En281_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En282, ENUM, 1, 8, En282_A = 0X1f, En282_AB = 0x3f, En282_Ba = 0x7f);
struct En282_Cls { uint64 g0; En282 m; uint8 g1; En282 a[3]; es::Flags<En282, uint8> f8; es::Flags<En282, uint64> f64; es::Flags<En282, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En282_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En283, ENUM, 1, 8, En283_A = 0X1f, En283_AB = 0x3f, En283_Ba = 077u);
struct En283_Cls { uint64 g0; En283 m; uint8 g1; En283 a[3]; es::Flags<En283, uint8> f8; es::Flags<En283, uint64> f64; es::Flags<En283, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En283_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En284, ENUM, 1, 8, En284_A = 0X1f, En284_AB = 64, En284_Ba);
struct En284_Cls { uint64 g0; En284 m; uint8 g1; En284 a[3]; es::Flags<En284, uint8> f8; es::Flags<En284, uint64> f64; es::Flags<En284, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En284_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En285, ENUM, 1, 8, En285_A = 0X1f, En285_AB = 64, En285_Ba = 255);
struct En285_Cls { uint64 g0; En285 m; uint8 g1; En285 a[3]; es::Flags<En285, uint8> f8; es::Flags<En285, uint64> f64; es::Flags<En285, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En285_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En286, ENUM, 1, 8, En286_A = 0X1f, En286_AB = 64, En286_Ba = 0x7f);
struct En286_Cls { uint64 g0; En286 m; uint8 g1; En286 a[3]; es::Flags<En286, uint8> f8; es::Flags<En286, uint64> f64; es::Flags<En286, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En286_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En287, ENUM, 1, 8, En287_A = 0X1f, En287_AB = 64, En287_Ba = 077u);
struct En287_Cls { uint64 g0; En287 m; uint8 g1; En287 a[3]; es::Flags<En287, uint8> f8; es::Flags<En287, uint64> f64; es::Flags<En287, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En287_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En288, ENUM, 2, CLASS, 8, En288_A, En288_AB, En288_Ba);
struct En288_Cls { uint64 g0; En288 m; uint8 g1; En288 a[3]; es::Flags<En288, uint8> f8; es::Flags<En288, uint64> f64; es::Flags<En288, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En288_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En289, ENUM, 2, CLASS, 8, En289_A, En289_AB, En289_Ba = 255);
struct En289_Cls { uint64 g0; En289 m; uint8 g1; En289 a[3]; es::Flags<En289, uint8> f8; es::Flags<En289, uint64> f64; es::Flags<En289, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En289_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En290, ENUM, 2, CLASS, 8, En290_A, En290_AB, En290_Ba = 0x7f);
struct En290_Cls { uint64 g0; En290 m; uint8 g1; En290 a[3]; es::Flags<En290, uint8> f8; es::Flags<En290, uint64> f64; es::Flags<En290, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En290_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En291, ENUM, 2, CLASS, 8, En291_A, En291_AB, En291_Ba = 077u);
struct En291_Cls { uint64 g0; En291 m; uint8 g1; En291 a[3]; es::Flags<En291, uint8> f8; es::Flags<En291, uint64> f64; es::Flags<En291, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En291_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En292, ENUM, 2, CLASS, 8, En292_A, En292_AB = 40, En292_Ba);
struct En292_Cls { uint64 g0; En292 m; uint8 g1; En292 a[3]; es::Flags<En292, uint8> f8; es::Flags<En292, uint64> f64; es::Flags<En292, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En292_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En293, ENUM, 2, CLASS, 8, En293_A, En293_AB = 40, En293_Ba = 255);
struct En293_Cls { uint64 g0; En293 m; uint8 g1; En293 a[3]; es::Flags<En293, uint8> f8; es::Flags<En293, uint64> f64; es::Flags<En293, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En293_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En294, ENUM, 2, CLASS, 8, En294_A, En294_AB = 40, En294_Ba = 0x7f);
struct En294_Cls { uint64 g0; En294 m; uint8 g1; En294 a[3]; es::Flags<En294, uint8> f8; es::Flags<En294, uint64> f64; es::Flags<En294, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En294_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En295, ENUM, 2, CLASS, 8, En295_A, En295_AB = 40, En295_Ba = 077u);
struct En295_Cls { uint64 g0; En295 m; uint8 g1; En295 a[3]; es::Flags<En295, uint8> f8; es::Flags<En295, uint64> f64; es::Flags<En295, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En295_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En296, ENUM, 2, CLASS, 8, En296_A, En296_AB = 0x3f, En296_Ba);
struct En296_Cls { uint64 g0; En296 m; uint8 g1; En296 a[3]; es::Flags<En296, uint8> f8; es::Flags<En296, uint64> f64; es::Flags<En296, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En296_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En297, ENUM, 2, CLASS, 8, En297_A, En297_AB = 0x3f, En297_Ba = 255);
struct En297_Cls { uint64 g0; En297 m; uint8 g1; En297 a[3]; es::Flags<En297, uint8> f8; es::Flags<En297, uint64> f64; es::Flags<En297, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En297_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En298, ENUM, 2, CLASS, 8, En298_A, En298_AB = 0x3f, En298_Ba = 0x7f);
struct En298_Cls { uint64 g0; En298 m; uint8 g1; En298 a[3]; es::Flags<En298, uint8> f8; es::Flags<En298, uint64> f64; es::Flags<En298, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En298_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En299, ENUM, 2, CLASS, 8, En299_A, En299_AB = 0x3f, En299_Ba = 077u);
struct En299_Cls { uint64 g0; En299 m; uint8 g1; En299 a[3]; es::Flags<En299, uint8> f8; es::Flags<En299, uint64> f64; es::Flags<En299, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En299_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En300, ENUM, 2, CLASS, 8, En300_A, En300_AB = 64, En300_Ba);
struct En300_Cls { uint64 g0; En300 m; uint8 g1; En300 a[3]; es::Flags<En300, uint8> f8; es::Flags<En300, uint64> f64; es::Flags<En300, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En300_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En301, ENUM, 2, CLASS, 8, En301_A, En301_AB = 64, En301_Ba = 255);
struct En301_Cls { uint64 g0; En301 m; uint8 g1; En301 a[3]; es::Flags<En301, uint8> f8; es::Flags<En301, uint64> f64; es::Flags<En301, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En301_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En302, ENUM, 2, CLASS, 8, En302_A, En302_AB = 64, En302_Ba = 0x7f);
struct En302_Cls { uint64 g0; En302 m; uint8 g1; En302 a[3]; es::Flags<En302, uint8> f8; es::Flags<En302, uint64> f64; es::Flags<En302, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En302_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En303, ENUM, 2, CLASS, 8, En303_A, En303_AB = 64, En303_Ba = 077u);
struct En303_Cls { uint64 g0; En303 m; uint8 g1; En303 a[3]; es::Flags<En303, uint8> f8; es::Flags<En303, uint64> f64; es::Flags<En303, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En303_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En304, ENUM, 2, CLASS, 8, En304_A = 3, En304_AB, En304_Ba);
struct En304_Cls { uint64 g0; En304 m; uint8 g1; En304 a[3]; es::Flags<En304, uint8> f8; es::Flags<En304, uint64> f64; es::Flags<En304, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En304_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En305, ENUM, 2, CLASS, 8, En305_A = 3, En305_AB, En305_Ba = 255);
struct En305_Cls { uint64 g0; En305 m; uint8 g1; En305 a[3]; es::Flags<En305, uint8> f8; es::Flags<En305, uint64> f64; es::Flags<En305, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En305_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En306, ENUM, 2, CLASS, 8, En306_A = 3, En306_AB, En306_Ba = 0x7f);
struct En306_Cls { uint64 g0; En306 m; uint8 g1; En306 a[3]; es::Flags<En306, uint8> f8; es::Flags<En306, uint64> f64; es::Flags<En306, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En306_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En307, ENUM, 2, CLASS, 8, En307_A = 3, En307_AB, En307_Ba = 077u);
struct En307_Cls { uint64 g0; En307 m; uint8 g1; En307 a[3]; es::Flags<En307, uint8> f8; es::Flags<En307, uint64> f64; es::Flags<En307, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En307_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En308, ENUM, 2, CLASS, 8, En308_A = 3, En308_AB = 40, En308_Ba);
struct En308_Cls { uint64 g0; En308 m; uint8 g1; En308 a[3]; es::Flags<En308, uint8> f8; es::Flags<En308, uint64> f64; es::Flags<En308, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En308_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En309, ENUM, 2, CLASS, 8, En309_A = 3, En309_AB = 40, En309_Ba = 255);
struct En309_Cls { uint64 g0; En309 m; uint8 g1; En309 a[3]; es::Flags<En309, uint8> f8; es::Flags<En309, uint64> f64; es::Flags<En309, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En309_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En310, ENUM, 2, CLASS, 8, En310_A = 3, En310_AB = 40, En310_Ba = 0x7f);
struct En310_Cls { uint64 g0; En310 m; uint8 g1; En310 a[3]; es::Flags<En310, uint8> f8; es::Flags<En310, uint64> f64; es::Flags<En310, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En310_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En311, ENUM, 2, CLASS, 8, En311_A = 3, En311_AB = 40, En311_Ba = 077u);
struct En311_Cls { uint64 g0; En311 m; uint8 g1; En311 a[3]; es::Flags<En311, uint8> f8; es::Flags<En311, uint64> f64; es::Flags<En311, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En311_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En312, ENUM, 2, CLASS, 8, En312_A = 3, En312_AB = 0x3f, En312_Ba);
struct En312_Cls { uint64 g0; En312 m; uint8 g1; En312 a[3]; es::Flags<En312, uint8> f8; es::Flags<En312, uint64> f64; es::Flags<En312, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En312_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En313, ENUM, 2, CLASS, 8, En313_A = 3, En313_AB = 0x3f, En313_Ba = 255);
struct En313_Cls { uint64 g0; En313 m; uint8 g1; En313 a[3]; es::Flags<En313, uint8> f8; es::Flags<En313, uint64> f64; es::Flags<En313, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En313_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En314, ENUM, 2, CLASS, 8, En314_A = 3, En314_AB = 0x3f, En314_Ba = 0x7f);
struct En314_Cls { uint64 g0; En314 m; uint8 g1; En314 a[3]; es::Flags<En314, uint8> f8; es::Flags<En314, uint64> f64; es::Flags<En314, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En314_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En315, ENUM, 2, CLASS, 8, En315_A = 3, En315_AB = 0x3f, En315_Ba = 077u);
struct En315_Cls { uint64 g0; En315 m; uint8 g1; En315 a[3]; es::Flags<En315, uint8> f8; es::Flags<En315, uint64> f64; es::Flags<En315, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En315_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En316, ENUM, 2, CLASS, 8, En316_A = 3, En316_AB = 64, En316_Ba);
struct En316_Cls { uint64 g0; En316 m; uint8 g1; En316 a[3]; es::Flags<En316, uint8> f8; es::Flags<En316, uint64> f64; es::Flags<En316, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En316_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En317, ENUM, 2, CLASS, 8, En317_A = 3, En317_AB = 64, En317_Ba = 255);
struct En317_Cls { uint64 g0; En317 m; uint8 g1; En317 a[3]; es::Flags<En317, uint8> f8; es::Flags<En317, uint64> f64; es::Flags<En317, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En317_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En318, ENUM, 2, CLASS, 8, En318_A = 3, En318_AB = 64, En318_Ba = 0x7f);
struct En318_Cls { uint64 g0; En318 m; uint8 g1; En318 a[3]; es::Flags<En318, uint8> f8; es::Flags<En318, uint64> f64; es::Flags<En318, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En318_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En319, ENUM, 2, CLASS, 8, En319_A = 3, En319_AB = 64, En319_Ba = 077u);
struct En319_Cls { uint64 g0; En319 m; uint8 g1; En319 a[3]; es::Flags<En319, uint8> f8; es::Flags<En319, uint64> f64; es::Flags<En319, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En319_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En320, ENUM, 2, CLASS, 8, En320_A = 0x11, En320_AB, En320_Ba);
struct En320_Cls { uint64 g0; En320 m; uint8 g1; En320 a[3]; es::Flags<En320, uint8> f8; es::Flags<En320, uint64> f64; es::Flags<En320, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En320_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En321, ENUM, 2, CLASS, 8, En321_A = 0x11, En321_AB, En321_Ba = 255);
struct En321_Cls { uint64 g0; En321 m; uint8 g1; En321 a[3]; es::Flags<En321, uint8> f8; es::Flags<En321, uint64> f64; es::Flags<En321, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En321_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En322, ENUM, 2, CLASS, 8, En322_A = 0x11, En322_AB, En322_Ba = 0x7f);
struct En322_Cls { uint64 g0; En322 m; uint8 g1; En322 a[3]; es::Flags<En322, uint8> f8; es::Flags<En322, uint64> f64; es::Flags<En322, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En322_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En323, ENUM, 2, CLASS, 8, En323_A = 0x11, En323_AB, En323_Ba = 077u);
struct En323_Cls { uint64 g0; En323 m; uint8 g1; En323 a[3]; es::Flags<En323, uint8> f8; es::Flags<En323, uint64> f64; es::Flags<En323, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En323_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En324, ENUM, 2, CLASS, 8, En324_A = 0x11, En324_AB = 40, En324_Ba);
struct En324_Cls { uint64 g0; En324 m; uint8 g1; En324 a[3]; es::Flags<En324, uint8> f8; es::Flags<En324, uint64> f64; es::Flags<En324, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En324_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En325, ENUM, 2, CLASS, 8, En325_A = 0x11, En325_AB = 40, En325_Ba = 255);
struct En325_Cls { uint64 g0; En325 m; uint8 g1; En325 a[3]; es::Flags<En325, uint8> f8; es::Flags<En325, uint64> f64; es::Flags<En325, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En325_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En326, ENUM, 2, CLASS, 8, En326_A = 0x11, En326_AB = 40, En326_Ba = 0x7f);
struct En326_Cls { uint64 g0; En326 m; uint8 g1; En326 a[3]; es::Flags<En326, uint8> f8; es::Flags<En326, uint64> f64; es::Flags<En326, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En326_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En327, ENUM, 2, CLASS, 8, En327_A = 0x11, En327_AB = 40, En327_Ba = 077u);
struct En327_Cls { uint64 g0; En327 m; uint8 g1; En327 a[3]; es::Flags<En327, uint8> f8; es::Flags<En327, uint64> f64; es::Flags<En327, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En327_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En328, ENUM, 2, CLASS, 8, En328_A = 0x11, En328_AB = 0x3f, En328_Ba);
struct En328_Cls { uint64 g0; En328 m; uint8 g1; En328 a[3]; es::Flags<En328, uint8> f8; es::Flags<En328, uint64> f64; es::Flags<En328, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En328_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En329, ENUM, 2, CLASS, 8, En329_A = 0x11, En329_AB = 0x3f, En329_Ba = 255);
struct En329_Cls { uint64 g0; En329 m; uint8 g1; En329 a[3]; es::Flags<En329, uint8> f8; es::Flags<En329, uint64> f64; es::Flags<En329, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En329_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En330, ENUM, 2, CLASS, 8, En330_A = 0x11, En330_AB = 0x3f, En330_Ba = 0x7f);
struct En330_Cls { uint64 g0; En330 m; uint8 g1; En330 a[3]; es::Flags<En330, uint8> f8; es::Flags<En330, uint64> f64; es::Flags<En330, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En330_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En331, ENUM, 2, CLASS, 8, En331_A = 0x11, En331_AB = 0x3f, En331_Ba = 077u);
struct En331_Cls { uint64 g0; En331 m; uint8 g1; En331 a[3]; es::Flags<En331, uint8> f8; es::Flags<En331, uint64> f64; es::Flags<En331, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En331_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En332, ENUM, 2, CLASS, 8, En332_A = 0x11, En332_AB = 64, En332_Ba);
struct En332_Cls { uint64 g0; En332 m; uint8 g1; En332 a[3]; es::Flags<En332, uint8> f8; es::Flags<En332, uint64> f64; es::Flags<En332, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En332_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En333, ENUM, 2, CLASS, 8, En333_A = 0x11, En333_AB = 64, En333_Ba = 255);
struct En333_Cls { uint64 g0; En333 m; uint8 g1; En333 a[3]; es::Flags<En333, uint8> f8; es::Flags<En333, uint64> f64; es::Flags<En333, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En333_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En334, ENUM, 2, CLASS, 8, En334_A = 0x11, En334_AB = 64, En334_Ba = 0x7f);
struct En334_Cls { uint64 g0; En334 m; uint8 g1; En334 a[3]; es::Flags<En334, uint8> f8; es::Flags<En334, uint64> f64; es::Flags<En334, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En334_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En335, ENUM, 2, CLASS, 8, En335_A = 0x11, En335_AB = 64, En335_Ba = 077u);
struct En335_Cls { uint64 g0; En335 m; uint8 g1; En335 a[3]; es::Flags<En335, uint8> f8; es::Flags<En335, uint64> f64; es::Flags<En335, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En335_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En336, ENUM, 2, CLASS, 8, En336_A=1, En336_AB, En336_Ba);
struct En336_Cls { uint64 g0; En336 m; uint8 g1; En336 a[3]; es::Flags<En336, uint8> f8; es::Flags<En336, uint64> f64; es::Flags<En336, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En336_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En337, ENUM, 2, CLASS, 8, En337_A=1, En337_AB, En337_Ba = 255);
struct En337_Cls { uint64 g0; En337 m; uint8 g1; En337 a[3]; es::Flags<En337, uint8> f8; es::Flags<En337, uint64> f64; es::Flags<En337, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En337_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En338, ENUM, 2, CLASS, 8, En338_A=1, En338_AB, En338_Ba = 0x7f);
struct En338_Cls { uint64 g0; En338 m; uint8 g1; En338 a[3]; es::Flags<En338, uint8> f8; es::Flags<En338, uint64> f64; es::Flags<En338, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En338_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En339, ENUM, 2, CLASS, 8, En339_A=1, En339_AB, En339_Ba = 077u);
struct En339_Cls { uint64 g0; En339 m; uint8 g1; En339 a[3]; es::Flags<En339, uint8> f8; es::Flags<En339, uint64> f64; es::Flags<En339, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En339_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En340, ENUM, 2, CLASS, 8, En340_A=1, En340_AB = 40, En340_Ba);
struct En340_Cls { uint64 g0; En340 m; uint8 g1; En340 a[3]; es::Flags<En340, uint8> f8; es::Flags<En340, uint64> f64; es::Flags<En340, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En340_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En341, ENUM, 2, CLASS, 8, En341_A=1, En341_AB = 40, En341_Ba = 255);
struct En341_Cls { uint64 g0; En341 m; uint8 g1; En341 a[3]; es::Flags<En341, uint8> f8; es::Flags<En341, uint64> f64; es::Flags<En341, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En341_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En342, ENUM, 2, CLASS, 8, En342_A=1, En342_AB = 40, En342_Ba = 0x7f);
struct En342_Cls { uint64 g0; En342 m; uint8 g1; En342 a[3]; es::Flags<En342, uint8> f8; es::Flags<En342, uint64> f64; es::Flags<En342, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En342_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En343, ENUM, 2, CLASS, 8, En343_A=1, En343_AB = 40, En343_Ba = 077u);
struct En343_Cls { uint64 g0; En343 m; uint8 g1; En343 a[3]; es::Flags<En343, uint8> f8; es::Flags<En343, uint64> f64; es::Flags<En343, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En343_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En344, ENUM, 2, CLASS, 8, En344_A=1, En344_AB = 0x3f, En344_Ba);
struct En344_Cls { uint64 g0; En344 m; uint8 g1; En344 a[3]; es::Flags<En344, uint8> f8; es::Flags<En344, uint64> f64; es::Flags<En344, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En344_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En345, ENUM, 2, CLASS, 8, En345_A=1, En345_AB = 0x3f, En345_Ba = 255);
struct En345_Cls { uint64 g0; En345 m; uint8 g1; En345 a[3]; es::Flags<En345, uint8> f8; es::Flags<En345, uint64> f64; es::Flags<En345, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En345_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En346, ENUM, 2, CLASS, 8, En346_A=1, En346_AB = 0x3f, En346_Ba = 0x7f);
struct En346_Cls { uint64 g0; En346 m; uint8 g1; En346 a[3]; es::Flags<En346, uint8> f8; es::Flags<En346, uint64> f64; es::Flags<En346, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En346_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En347, ENUM, 2, CLASS, 8, En347_A=1, En347_AB = 0x3f, En347_Ba = 077u);
struct En347_Cls { uint64 g0; En347 m; uint8 g1; En347 a[3]; es::Flags<En347, uint8> f8; es::Flags<En347, uint64> f64; es::Flags<En347, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En347_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En348, ENUM, 2, CLASS, 8, En348_A=1, En348_AB = 64, En348_Ba);
struct En348_Cls { uint64 g0; En348 m; uint8 g1; En348 a[3]; es::Flags<En348, uint8> f8; es::Flags<En348, uint64> f64; es::Flags<En348, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En348_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En349, ENUM, 2, CLASS, 8, En349_A=1, En349_AB = 64, En349_Ba = 255);
struct En349_Cls { uint64 g0; En349 m; uint8 g1; En349 a[3]; es::Flags<En349, uint8> f8; es::Flags<En349, uint64> f64; es::Flags<En349, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En349_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En350, ENUM, 2, CLASS, 8, En350_A=1, En350_AB = 64, En350_Ba = 0x7f);
struct En350_Cls { uint64 g0; En350 m; uint8 g1; En350 a[3]; es::Flags<En350, uint8> f8; es::Flags<En350, uint64> f64; es::Flags<En350, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En350_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En351, ENUM, 2, CLASS, 8, En351_A=1, En351_AB = 64, En351_Ba = 077u);
struct En351_Cls { uint64 g0; En351 m; uint8 g1; En351 a[3]; es::Flags<En351, uint8> f8; es::Flags<En351, uint64> f64; es::Flags<En351, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En351_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En352, ENUM, 2, CLASS, 8, En352_A = 010, En352_AB, En352_Ba);
struct En352_Cls { uint64 g0; En352 m; uint8 g1; En352 a[3]; es::Flags<En352, uint8> f8; es::Flags<En352, uint64> f64; es::Flags<En352, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En352_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En353, ENUM, 2, CLASS, 8, En353_A = 010, En353_AB, En353_Ba = 255);
struct En353_Cls { uint64 g0; En353 m; uint8 g1; En353 a[3]; es::Flags<En353, uint8> f8; es::Flags<En353, uint64> f64; es::Flags<En353, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En353_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En354, ENUM, 2, CLASS, 8, En354_A = 010, En354_AB, En354_Ba = 0x7f);
struct En354_Cls { uint64 g0; En354 m; uint8 g1; En354 a[3]; es::Flags<En354, uint8> f8; es::Flags<En354, uint64> f64; es::Flags<En354, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En354_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En355, ENUM, 2, CLASS, 8, En355_A = 010, En355_AB, En355_Ba = 077u);
struct En355_Cls { uint64 g0; En355 m; uint8 g1; En355 a[3]; es::Flags<En355, uint8> f8; es::Flags<En355, uint64> f64; es::Flags<En355, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En355_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En356, ENUM, 2, CLASS, 8, En356_A = 010, En356_AB = 40, En356_Ba);
struct En356_Cls { uint64 g0; En356 m; uint8 g1; En356 a[3]; es::Flags<En356, uint8> f8; es::Flags<En356, uint64> f64; es::Flags<En356, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En356_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En357, ENUM, 2, CLASS, 8, En357_A = 010, En357_AB = 40, En357_Ba = 255);
struct En357_Cls { uint64 g0; En357 m; uint8 g1; En357 a[3]; es::Flags<En357, uint8> f8; es::Flags<En357, uint64> f64; es::Flags<En357, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En357_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En358, ENUM, 2, CLASS, 8, En358_A = 010, En358_AB = 40, En358_Ba = 0x7f);
struct En358_Cls { uint64 g0; En358 m; uint8 g1; En358 a[3]; es::Flags<En358, uint8> f8; es::Flags<En358, uint64> f64; es::Flags<En358, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En358_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En359, ENUM, 2, CLASS, 8, En359_A = 010, En359_AB = 40, En359_Ba = 077u);
struct En359_Cls { uint64 g0; En359 m; uint8 g1; En359 a[3]; es::Flags<En359, uint8> f8; es::Flags<En359, uint64> f64; es::Flags<En359, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En359_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En360, ENUM, 2, CLASS, 8, En360_A = 010, En360_AB = 0x3f, En360_Ba);
struct En360_Cls { uint64 g0; En360 m; uint8 g1; En360 a[3]; es::Flags<En360, uint8> f8; es::Flags<En360, uint64> f64; es::Flags<En360, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En360_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En361, ENUM, 2, CLASS, 8, En361_A = 010, En361_AB = 0x3f, En361_Ba = 255);
struct En361_Cls { uint64 g0; En361 m; uint8 g1; En361 a[3]; es::Flags<En361, uint8> f8; es::Flags<En361, uint64> f64; es::Flags<En361, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En361_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En362, ENUM, 2, CLASS, 8, En362_A = 010, En362_AB = 0x3f, En362_Ba = 0x7f);
struct En362_Cls { uint64 g0; En362 m; uint8 g1; En362 a[3]; es::Flags<En362, uint8> f8; es::Flags<En362, uint64> f64; es::Flags<En362, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En362_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En363, ENUM, 2, CLASS, 8, En363_A = 010, En363_AB = 0x3f, En363_Ba = 077u);
struct En363_Cls { uint64 g0; En363 m; uint8 g1; En363 a[3]; es::Flags<En363, uint8> f8; es::Flags<En363, uint64> f64; es::Flags<En363, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En363_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En364, ENUM, 2, CLASS, 8, En364_A = 010, En364_AB = 64, En364_Ba);
struct En364_Cls { uint64 g0; En364 m; uint8 g1; En364 a[3]; es::Flags<En364, uint8> f8; es::Flags<En364, uint64> f64; es::Flags<En364, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En364_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En365, ENUM, 2, CLASS, 8, En365_A = 010, En365_AB = 64, En365_Ba = 255);
struct En365_Cls { uint64 g0; En365 m; uint8 g1; En365 a[3]; es::Flags<En365, uint8> f8; es::Flags<En365, uint64> f64; es::Flags<En365, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En365_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En366, ENUM, 2, CLASS, 8, En366_A = 010, En366_AB = 64, En366_Ba = 0x7f);
struct En366_Cls { uint64 g0; En366 m; uint8 g1; En366 a[3]; es::Flags<En366, uint8> f8; es::Flags<En366, uint64> f64; es::Flags<En366, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En366_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En367, ENUM, 2, CLASS, 8, En367_A = 010, En367_AB = 64, En367_Ba = 077u);
struct En367_Cls { uint64 g0; En367 m; uint8 g1; En367 a[3]; es::Flags<En367, uint8> f8; es::Flags<En367, uint64> f64; es::Flags<En367, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En367_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En368, ENUM, 2, CLASS, 8, En368_A = 0X1f, En368_AB, En368_Ba);
struct En368_Cls { uint64 g0; En368 m; uint8 g1; En368 a[3]; es::Flags<En368, uint8> f8; es::Flags<En368, uint64> f64; es::Flags<En368, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En368_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En369, ENUM, 2, CLASS, 8, En369_A = 0X1f, En369_AB, En369_Ba = 255);
struct En369_Cls { uint64 g0; En369 m; uint8 g1; En369 a[3]; es::Flags<En369, uint8> f8; es::Flags<En369, uint64> f64; es::Flags<En369, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En369_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En370, ENUM, 2, CLASS, 8, En370_A = 0X1f, En370_AB, En370_Ba = 0x7f);
struct En370_Cls { uint64 g0; En370 m; uint8 g1; En370 a[3]; es::Flags<En370, uint8> f8; es::Flags<En370, uint64> f64; es::Flags<En370, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En370_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En371, ENUM, 2, CLASS, 8, En371_A = 0X1f, En371_AB, En371_Ba = 077u);
struct En371_Cls { uint64 g0; En371 m; uint8 g1; En371 a[3]; es::Flags<En371, uint8> f8; es::Flags<En371, uint64> f64; es::Flags<En371, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En371_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En372, ENUM, 2, CLASS, 8, En372_A = 0X1f, En372_AB = 40, En372_Ba);
struct En372_Cls { uint64 g0; En372 m; uint8 g1; En372 a[3]; es::Flags<En372, uint8> f8; es::Flags<En372, uint64> f64; es::Flags<En372, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En372_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En373, ENUM, 2, CLASS, 8, En373_A = 0X1f, En373_AB = 40, En373_Ba = 255);
struct En373_Cls { uint64 g0; En373 m; uint8 g1; En373 a[3]; es::Flags<En373, uint8> f8; es::Flags<En373, uint64> f64; es::Flags<En373, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En373_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En374, ENUM, 2, CLASS, 8, En374_A = 0X1f, En374_AB = 40, En374_Ba = 0x7f);
struct En374_Cls { uint64 g0; En374 m; uint8 g1; En374 a[3]; es::Flags<En374, uint8> f8; es::Flags<En374, uint64> f64; es::Flags<En374, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En374_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En375, ENUM, 2, CLASS, 8, En375_A = 0X1f, En375_AB = 40, En375_Ba = 077u);
struct En375_Cls { uint64 g0; En375 m; uint8 g1; En375 a[3]; es::Flags<En375, uint8> f8; es::Flags<En375, uint64> f64; es::Flags<En375, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En375_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En376, ENUM, 2, CLASS, 8, En376_A = 0X1f, En376_AB = 0x3f, En376_Ba);
struct En376_Cls { uint64 g0; En376 m; uint8 g1; En376 a[3]; es::Flags<En376, uint8> f8; es::Flags<En376, uint64> f64; es::Flags<En376, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En376_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En377, ENUM, 2, CLASS, 8, En377_A = 0X1f, En377_AB = 0x3f, En377_Ba = 255);
struct En377_Cls { uint64 g0; En377 m; uint8 g1; En377 a[3]; es::Flags<En377, uint8> f8; es::Flags<En377, uint64> f64; es::Flags<En377, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En377_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En378, ENUM, 2, CLASS, 8, En378_A = 0X1f, En378_AB = 0x3f, En378_Ba = 0x7f);
struct En378_Cls { uint64 g0; En378 m; uint8 g1; En378 a[3]; es::Flags<En378, uint8> f8; es::Flags<En378, uint64> f64; es::Flags<En378, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En378_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En379, ENUM, 2, CLASS, 8, En379_A = 0X1f, En379_AB = 0x3f, En379_Ba = 077u);
struct En379_Cls { uint64 g0; En379 m; uint8 g1; En379 a[3]; es::Flags<En379, uint8> f8; es::Flags<En379, uint64> f64; es::Flags<En379, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En379_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En380, ENUM, 2, CLASS, 8, En380_A = 0X1f, En380_AB = 64, En380_Ba);
struct En380_Cls { uint64 g0; En380 m; uint8 g1; En380 a[3]; es::Flags<En380, uint8> f8; es::Flags<En380, uint64> f64; es::Flags<En380, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En380_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En381, ENUM, 2, CLASS, 8, En381_A = 0X1f, En381_AB = 64, En381_Ba = 255);
struct En381_Cls { uint64 g0; En381 m; uint8 g1; En381 a[3]; es::Flags<En381, uint8> f8; es::Flags<En381, uint64> f64; es::Flags<En381, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En381_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En382, ENUM, 2, CLASS, 8, En382_A = 0X1f, En382_AB = 64, En382_Ba = 0x7f);
struct En382_Cls { uint64 g0; En382 m; uint8 g1; En382 a[3]; es::Flags<En382, uint8> f8; es::Flags<En382, uint64> f64; es::Flags<En382, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En382_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En383, ENUM, 2, CLASS, 8, En383_A = 0X1f, En383_AB = 64, En383_Ba = 077u);
struct En383_Cls { uint64 g0; En383 m; uint8 g1; En383 a[3]; es::Flags<En383, uint8> f8; es::Flags<En383, uint64> f64; es::Flags<En383, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En383_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En384, ENUM, 2, CLASS, 16, En384_A, En384_AB, En384_Ba);
struct En384_Cls { uint64 g0; En384 m; uint8 g1; En384 a[3]; es::Flags<En384, uint8> f8; es::Flags<En384, uint64> f64; es::Flags<En384, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En384_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En385, ENUM, 2, CLASS, 16, En385_A, En385_AB, En385_Ba = 65535);
struct En385_Cls { uint64 g0; En385 m; uint8 g1; En385 a[3]; es::Flags<En385, uint8> f8; es::Flags<En385, uint64> f64; es::Flags<En385, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En385_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En386, ENUM, 2, CLASS, 16, En386_A, En386_AB, En386_Ba = 0x7fff);
struct En386_Cls { uint64 g0; En386 m; uint8 g1; En386 a[3]; es::Flags<En386, uint8> f8; es::Flags<En386, uint64> f64; es::Flags<En386, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En386_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En387, ENUM, 2, CLASS, 16, En387_A, En387_AB, En387_Ba = 077u);
struct En387_Cls { uint64 g0; En387 m; uint8 g1; En387 a[3]; es::Flags<En387, uint8> f8; es::Flags<En387, uint64> f64; es::Flags<En387, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En387_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En388, ENUM, 2, CLASS, 16, En388_A, En388_AB = 40, En388_Ba);
struct En388_Cls { uint64 g0; En388 m; uint8 g1; En388 a[3]; es::Flags<En388, uint8> f8; es::Flags<En388, uint64> f64; es::Flags<En388, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En388_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En389, ENUM, 2, CLASS, 16, En389_A, En389_AB = 40, En389_Ba = 65535);
struct En389_Cls { uint64 g0; En389 m; uint8 g1; En389 a[3]; es::Flags<En389, uint8> f8; es::Flags<En389, uint64> f64; es::Flags<En389, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En389_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En390, ENUM, 2, CLASS, 16, En390_A, En390_AB = 40, En390_Ba = 0x7fff);
struct En390_Cls { uint64 g0; En390 m; uint8 g1; En390 a[3]; es::Flags<En390, uint8> f8; es::Flags<En390, uint64> f64; es::Flags<En390, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En390_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En391, ENUM, 2, CLASS, 16, En391_A, En391_AB = 40, En391_Ba = 077u);
struct En391_Cls { uint64 g0; En391 m; uint8 g1; En391 a[3]; es::Flags<En391, uint8> f8; es::Flags<En391, uint64> f64; es::Flags<En391, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En391_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En392, ENUM, 2, CLASS, 16, En392_A, En392_AB = 0x3f, En392_Ba);
struct En392_Cls { uint64 g0; En392 m; uint8 g1; En392 a[3]; es::Flags<En392, uint8> f8; es::Flags<En392, uint64> f64; es::Flags<En392, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En392_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En393, ENUM, 2, CLASS, 16, En393_A, En393_AB = 0x3f, En393_Ba = 65535);
struct En393_Cls { uint64 g0; En393 m; uint8 g1; En393 a[3]; es::Flags<En393, uint8> f8; es::Flags<En393, uint64> f64; es::Flags<En393, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En393_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En394, ENUM, 2, CLASS, 16, En394_A, En394_AB = 0x3f, En394_Ba = 0x7fff);
struct En394_Cls { uint64 g0; En394 m; uint8 g1; En394 a[3]; es::Flags<En394, uint8> f8; es::Flags<En394, uint64> f64; es::Flags<En394, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En394_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En395, ENUM, 2, CLASS, 16, En395_A, En395_AB = 0x3f, En395_Ba = 077u);
struct En395_Cls { uint64 g0; En395 m; uint8 g1; En395 a[3]; es::Flags<En395, uint8> f8; es::Flags<En395, uint64> f64; es::Flags<En395, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En395_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En396, ENUM, 2, CLASS, 16, En396_A, En396_AB = 16384, En396_Ba);
struct En396_Cls { uint64 g0; En396 m; uint8 g1; En396 a[3]; es::Flags<En396, uint8> f8; es::Flags<En396, uint64> f64; es::Flags<En396, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En396_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En397, ENUM, 2, CLASS, 16, En397_A, En397_AB = 16384, En397_Ba = 65535);
struct En397_Cls { uint64 g0; En397 m; uint8 g1; En397 a[3]; es::Flags<En397, uint8> f8; es::Flags<En397, uint64> f64; es::Flags<En397, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En397_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En398, ENUM, 2, CLASS, 16, En398_A, En398_AB = 16384, En398_Ba = 0x7fff);
struct En398_Cls { uint64 g0; En398 m; uint8 g1; En398 a[3]; es::Flags<En398, uint8> f8; es::Flags<En398, uint64> f64; es::Flags<En398, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En398_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En399, ENUM, 2, CLASS, 16, En399_A, En399_AB = 16384, En399_Ba = 077u);
struct En399_Cls { uint64 g0; En399 m; uint8 g1; En399 a[3]; es::Flags<En399, uint8> f8; es::Flags<En399, uint64> f64; es::Flags<En399, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En399_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En400, ENUM, 2, CLASS, 16, En400_A = 3, En400_AB, En400_Ba);
struct En400_Cls { uint64 g0; En400 m; uint8 g1; En400 a[3]; es::Flags<En400, uint8> f8; es::Flags<En400, uint64> f64; es::Flags<En400, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En400_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En401, ENUM, 2, CLASS, 16, En401_A = 3, En401_AB, En401_Ba = 65535);
struct En401_Cls { uint64 g0; En401 m; uint8 g1; En401 a[3]; es::Flags<En401, uint8> f8; es::Flags<En401, uint64> f64; es::Flags<En401, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En401_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En402, ENUM, 2, CLASS, 16, En402_A = 3, En402_AB, En402_Ba = 0x7fff);
struct En402_Cls { uint64 g0; En402 m; uint8 g1; En402 a[3]; es::Flags<En402, uint8> f8; es::Flags<En402, uint64> f64; es::Flags<En402, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En402_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En403, ENUM, 2, CLASS, 16, En403_A = 3, En403_AB, En403_Ba = 077u);
struct En403_Cls { uint64 g0; En403 m; uint8 g1; En403 a[3]; es::Flags<En403, uint8> f8; es::Flags<En403, uint64> f64; es::Flags<En403, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En403_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En404, ENUM, 2, CLASS, 16, En404_A = 3, En404_AB = 40, En404_Ba);
struct En404_Cls { uint64 g0; En404 m; uint8 g1; En404 a[3]; es::Flags<En404, uint8> f8; es::Flags<En404, uint64> f64; es::Flags<En404, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En404_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En405, ENUM, 2, CLASS, 16, En405_A = 3, En405_AB = 40, En405_Ba = 65535);
struct En405_Cls { uint64 g0; En405 m; uint8 g1; En405 a[3]; es::Flags<En405, uint8> f8; es::Flags<En405, uint64> f64; es::Flags<En405, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En405_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En406, ENUM, 2, CLASS, 16, En406_A = 3, En406_AB = 40, En406_Ba = 0x7fff);
struct En406_Cls { uint64 g0; En406 m; uint8 g1; En406 a[3]; es::Flags<En406, uint8> f8; es::Flags<En406, uint64> f64; es::Flags<En406, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En406_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En407, ENUM, 2, CLASS, 16, En407_A = 3, En407_AB = 40, En407_Ba = 077u);
struct En407_Cls { uint64 g0; En407 m; uint8 g1; En407 a[3]; es::Flags<En407, uint8> f8; es::Flags<En407, uint64> f64; es::Flags<En407, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En407_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En408, ENUM, 2, CLASS, 16, En408_A = 3, En408_AB = 0x3f, En408_Ba);
struct En408_Cls { uint64 g0; En408 m; uint8 g1; En408 a[3]; es::Flags<En408, uint8> f8; es::Flags<En408, uint64> f64; es::Flags<En408, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En408_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En409, ENUM, 2, CLASS, 16, En409_A = 3, En409_AB = 0x3f, En409_Ba = 65535);
struct En409_Cls { uint64 g0; En409 m; uint8 g1; En409 a[3]; es::Flags<En409, uint8> f8; es::Flags<En409, uint64> f64; es::Flags<En409, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En409_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En410, ENUM, 2, CLASS, 16, En410_A = 3, En410_AB = 0x3f, En410_Ba = 0x7fff);
struct En410_Cls { uint64 g0; En410 m; uint8 g1; En410 a[3]; es::Flags<En410, uint8> f8; es::Flags<En410, uint64> f64; es::Flags<En410, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En410_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En411, ENUM, 2, CLASS, 16, En411_A = 3, En411_AB = 0x3f, En411_Ba = 077u);
struct En411_Cls { uint64 g0; En411 m; uint8 g1; En411 a[3]; es::Flags<En411, uint8> f8; es::Flags<En411, uint64> f64; es::Flags<En411, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En411_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En412, ENUM, 2, CLASS, 16, En412_A = 3, En412_AB = 16384, En412_Ba);
struct En412_Cls { uint64 g0; En412 m; uint8 g1; En412 a[3]; es::Flags<En412, uint8> f8; es::Flags<En412, uint64> f64; es::Flags<En412, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En412_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En413, ENUM, 2, CLASS, 16, En413_A = 3, En413_AB = 16384, En413_Ba = 65535);
struct En413_Cls { uint64 g0; En413 m; uint8 g1; En413 a[3]; es::Flags<En413, uint8> f8; es::Flags<En413, uint64> f64; es::Flags<En413, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En413_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En414, ENUM, 2, CLASS, 16, En414_A = 3, En414_AB = 16384, En414_Ba = 0x7fff);
struct En414_Cls { uint64 g0; En414 m; uint8 g1; En414 a[3]; es::Flags<En414, uint8> f8; es::Flags<En414, uint64> f64; es::Flags<En414, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En414_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En415, ENUM, 2, CLASS, 16, En415_A = 3, En415_AB = 16384, En415_Ba = 077u);
struct En415_Cls { uint64 g0; En415 m; uint8 g1; En415 a[3]; es::Flags<En415, uint8> f8; es::Flags<En415, uint64> f64; es::Flags<En415, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En415_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En416, ENUM, 2, CLASS, 16, En416_A = 0x11, En416_AB, En416_Ba);
struct En416_Cls { uint64 g0; En416 m; uint8 g1; En416 a[3]; es::Flags<En416, uint8> f8; es::Flags<En416, uint64> f64; es::Flags<En416, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En416_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En417, ENUM, 2, CLASS, 16, En417_A = 0x11, En417_AB, En417_Ba = 65535);
struct En417_Cls { uint64 g0; En417 m; uint8 g1; En417 a[3]; es::Flags<En417, uint8> f8; es::Flags<En417, uint64> f64; es::Flags<En417, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En417_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En418, ENUM, 2, CLASS, 16, En418_A = 0x11, En418_AB, En418_Ba = 0x7fff);
struct En418_Cls { uint64 g0; En418 m; uint8 g1; En418 a[3]; es::Flags<En418, uint8> f8; es::Flags<En418, uint64> f64; es::Flags<En418, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En418_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En419, ENUM, 2, CLASS, 16, En419_A = 0x11, En419_AB, En419_Ba = 077u);
struct En419_Cls { uint64 g0; En419 m; uint8 g1; En419 a[3]; es::Flags<En419, uint8> f8; es::Flags<En419, uint64> f64; es::Flags<En419, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En419_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En420, ENUM, 2, CLASS, 16, En420_A = 0x11, En420_AB = 40, En420_Ba);
struct En420_Cls { uint64 g0; En420 m; uint8 g1; En420 a[3]; es::Flags<En420, uint8> f8; es::Flags<En420, uint64> f64; es::Flags<En420, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En420_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En421, ENUM, 2, CLASS, 16, En421_A = 0x11, En421_AB = 40, En421_Ba = 65535);
struct En421_Cls { uint64 g0; En421 m; uint8 g1; En421 a[3]; es::Flags<En421, uint8> f8; es::Flags<En421, uint64> f64; es::Flags<En421, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En421_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En422, ENUM, 2, CLASS, 16, En422_A = 0x11, En422_AB = 40, En422_Ba = 0x7fff);
struct En422_Cls { uint64 g0; En422 m; uint8 g1; En422 a[3]; es::Flags<En422, uint8> f8; es::Flags<En422, uint64> f64; es::Flags<En422, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En422_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En423, ENUM, 2, CLASS, 16, En423_A = 0x11, En423_AB = 40, En423_Ba = 077u);
struct En423_Cls { uint64 g0; En423 m; uint8 g1; En423 a[3]; es::Flags<En423, uint8> f8; es::Flags<En423, uint64> f64; es::Flags<En423, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En423_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En424, ENUM, 2, CLASS, 16, En424_A = 0x11, En424_AB = 0x3f, En424_Ba);
struct En424_Cls { uint64 g0; En424 m; uint8 g1; En424 a[3]; es::Flags<En424, uint8> f8; es::Flags<En424, uint64> f64; es::Flags<En424, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En424_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En425, ENUM, 2, CLASS, 16, En425_A = 0x11, En425_AB = 0x3f, En425_Ba = 65535);
struct En425_Cls { uint64 g0; En425 m; uint8 g1; En425 a[3]; es::Flags<En425, uint8> f8; es::Flags<En425, uint64> f64; es::Flags<En425, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En425_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En426, ENUM, 2, CLASS, 16, En426_A = 0x11, En426_AB = 0x3f, En426_Ba = 0x7fff);
struct En426_Cls { uint64 g0; En426 m; uint8 g1; En426 a[3]; es::Flags<En426, uint8> f8; es::Flags<En426, uint64> f64; es::Flags<En426, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En426_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En427, ENUM, 2, CLASS, 16, En427_A = 0x11, En427_AB = 0x3f, En427_Ba = 077u);
struct En427_Cls { uint64 g0; En427 m; uint8 g1; En427 a[3]; es::Flags<En427, uint8> f8; es::Flags<En427, uint64> f64; es::Flags<En427, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En427_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En428, ENUM, 2, CLASS, 16, En428_A = 0x11, En428_AB = 16384, En428_Ba);
struct En428_Cls { uint64 g0; En428 m; uint8 g1; En428 a[3]; es::Flags<En428, uint8> f8; es::Flags<En428, uint64> f64; es::Flags<En428, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En428_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En429, ENUM, 2, CLASS, 16, En429_A = 0x11, En429_AB = 16384, En429_Ba = 65535);
struct En429_Cls { uint64 g0; En429 m; uint8 g1; En429 a[3]; es::Flags<En429, uint8> f8; es::Flags<En429, uint64> f64; es::Flags<En429, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En429_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En430, ENUM, 2, CLASS, 16, En430_A = 0x11, En430_AB = 16384, En430_Ba = 0x7fff);
struct En430_Cls { uint64 g0; En430 m; uint8 g1; En430 a[3]; es::Flags<En430, uint8> f8; es::Flags<En430, uint64> f64; es::Flags<En430, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En430_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En431, ENUM, 2, CLASS, 16, En431_A = 0x11, En431_AB = 16384, En431_Ba = 077u);
struct En431_Cls { uint64 g0; En431 m; uint8 g1; En431 a[3]; es::Flags<En431, uint8> f8; es::Flags<En431, uint64> f64; es::Flags<En431, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En431_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En432, ENUM, 2, CLASS, 16, En432_A=1, En432_AB, En432_Ba);
struct En432_Cls { uint64 g0; En432 m; uint8 g1; En432 a[3]; es::Flags<En432, uint8> f8; es::Flags<En432, uint64> f64; es::Flags<En432, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En432_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En433, ENUM, 2, CLASS, 16, En433_A=1, En433_AB, En433_Ba = 65535);
struct En433_Cls { uint64 g0; En433 m; uint8 g1; En433 a[3]; es::Flags<En433, uint8> f8; es::Flags<En433, uint64> f64; es::Flags<En433, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En433_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En434, ENUM, 2, CLASS, 16, En434_A=1, En434_AB, En434_Ba = 0x7fff);
struct En434_Cls { uint64 g0; En434 m; uint8 g1; En434 a[3]; es::Flags<En434, uint8> f8; es::Flags<En434, uint64> f64; es::Flags<En434, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En434_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En435, ENUM, 2, CLASS, 16, En435_A=1, En435_AB, En435_Ba = 077u);
struct En435_Cls { uint64 g0; En435 m; uint8 g1; En435 a[3]; es::Flags<En435, uint8> f8; es::Flags<En435, uint64> f64; es::Flags<En435, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En435_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En436, ENUM, 2, CLASS, 16, En436_A=1, En436_AB = 40, En436_Ba);
struct En436_Cls { uint64 g0; En436 m; uint8 g1; En436 a[3]; es::Flags<En436, uint8> f8; es::Flags<En436, uint64> f64; es::Flags<En436, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En436_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En437, ENUM, 2, CLASS, 16, En437_A=1, En437_AB = 40, En437_Ba = 65535);
struct En437_Cls { uint64 g0; En437 m; uint8 g1; En437 a[3]; es::Flags<En437, uint8> f8; es::Flags<En437, uint64> f64; es::Flags<En437, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En437_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En438, ENUM, 2, CLASS, 16, En438_A=1, En438_AB = 40, En438_Ba = 0x7fff);
struct En438_Cls { uint64 g0; En438 m; uint8 g1; En438 a[3]; es::Flags<En438, uint8> f8; es::Flags<En438, uint64> f64; es::Flags<En438, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En438_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En439, ENUM, 2, CLASS, 16, En439_A=1, En439_AB = 40, En439_Ba = 077u);
struct En439_Cls { uint64 g0; En439 m; uint8 g1; En439 a[3]; es::Flags<En439, uint8> f8; es::Flags<En439, uint64> f64; es::Flags<En439, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En439_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En440, ENUM, 2, CLASS, 16, En440_A=1, En440_AB = 0x3f, En440_Ba);
struct En440_Cls { uint64 g0; En440 m; uint8 g1; En440 a[3]; es::Flags<En440, uint8> f8; es::Flags<En440, uint64> f64; es::Flags<En440, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En440_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En441, ENUM, 2, CLASS, 16, En441_A=1, En441_AB = 0x3f, En441_Ba = 65535);
struct En441_Cls { uint64 g0; En441 m; uint8 g1; En441 a[3]; es::Flags<En441, uint8> f8; es::Flags<En441, uint64> f64; es::Flags<En441, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En441_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En442, ENUM, 2, CLASS, 16, En442_A=1, En442_AB = 0x3f, En442_Ba = 0x7fff);
struct En442_Cls { uint64 g0; En442 m; uint8 g1; En442 a[3]; es::Flags<En442, uint8> f8; es::Flags<En442, uint64> f64; es::Flags<En442, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En442_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En443, ENUM, 2, CLASS, 16, En443_A=1, En443_AB = 0x3f, En443_Ba = 077u);
struct En443_Cls { uint64 g0; En443 m; uint8 g1; En443 a[3]; es::Flags<En443, uint8> f8; es::Flags<En443, uint64> f64; es::Flags<En443, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En443_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En444, ENUM, 2, CLASS, 16, En444_A=1, En444_AB = 16384, En444_Ba);
struct En444_Cls { uint64 g0; En444 m; uint8 g1; En444 a[3]; es::Flags<En444, uint8> f8; es::Flags<En444, uint64> f64; es::Flags<En444, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En444_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En445, ENUM, 2, CLASS, 16, En445_A=1, En445_AB = 16384, En445_Ba = 65535);
struct En445_Cls { uint64 g0; En445 m; uint8 g1; En445 a[3]; es::Flags<En445, uint8> f8; es::Flags<En445, uint64> f64; es::Flags<En445, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En445_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En446, ENUM, 2, CLASS, 16, En446_A=1, En446_AB = 16384, En446_Ba = 0x7fff);
struct En446_Cls { uint64 g0; En446 m; uint8 g1; En446 a[3]; es::Flags<En446, uint8> f8; es::Flags<En446, uint64> f64; es::Flags<En446, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En446_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En447, ENUM, 2, CLASS, 16, En447_A=1, En447_AB = 16384, En447_Ba = 077u);
struct En447_Cls { uint64 g0; En447 m; uint8 g1; En447 a[3]; es::Flags<En447, uint8> f8; es::Flags<En447, uint64> f64; es::Flags<En447, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En447_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En448, ENUM, 2, CLASS, 16, En448_A = 010, En448_AB, En448_Ba);
struct En448_Cls { uint64 g0; En448 m; uint8 g1; En448 a[3]; es::Flags<En448, uint8> f8; es::Flags<En448, uint64> f64; es::Flags<En448, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En448_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En449, ENUM, 2, CLASS, 16, En449_A = 010, En449_AB, En449_Ba = 65535);
struct En449_Cls { uint64 g0; En449 m; uint8 g1; En449 a[3]; es::Flags<En449, uint8> f8; es::Flags<En449, uint64> f64; es::Flags<En449, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En449_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En450, ENUM, 2, CLASS, 16, En450_A = 010, En450_AB, En450_Ba = 0x7fff);
struct En450_Cls { uint64 g0; En450 m; uint8 g1; En450 a[3]; es::Flags<En450, uint8> f8; es::Flags<En450, uint64> f64; es::Flags<En450, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En450_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En451, ENUM, 2, CLASS, 16, En451_A = 010, En451_AB, En451_Ba = 077u);
struct En451_Cls { uint64 g0; En451 m; uint8 g1; En451 a[3]; es::Flags<En451, uint8> f8; es::Flags<En451, uint64> f64; es::Flags<En451, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En451_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En452, ENUM, 2, CLASS, 16, En452_A = 010, En452_AB = 40, En452_Ba);
struct En452_Cls { uint64 g0; En452 m; uint8 g1; En452 a[3]; es::Flags<En452, uint8> f8; es::Flags<En452, uint64> f64; es::Flags<En452, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En452_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En453, ENUM, 2, CLASS, 16, En453_A = 010, En453_AB = 40, En453_Ba = 65535);
struct En453_Cls { uint64 g0; En453 m; uint8 g1; En453 a[3]; es::Flags<En453, uint8> f8; es::Flags<En453, uint64> f64; es::Flags<En453, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En453_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En454, ENUM, 2, CLASS, 16, En454_A = 010, En454_AB = 40, En454_Ba = 0x7fff);
struct En454_Cls { uint64 g0; En454 m; uint8 g1; En454 a[3]; es::Flags<En454, uint8> f8; es::Flags<En454, uint64> f64; es::Flags<En454, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En454_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En455, ENUM, 2, CLASS, 16, En455_A = 010, En455_AB = 40, En455_Ba = 077u);
struct En455_Cls { uint64 g0; En455 m; uint8 g1; En455 a[3]; es::Flags<En455, uint8> f8; es::Flags<En455, uint64> f64; es::Flags<En455, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En455_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En456, ENUM, 2, CLASS, 16, En456_A = 010, En456_AB = 0x3f, En456_Ba);
struct En456_Cls { uint64 g0; En456 m; uint8 g1; En456 a[3]; es::Flags<En456, uint8> f8; es::Flags<En456, uint64> f64; es::Flags<En456, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En456_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En457, ENUM, 2, CLASS, 16, En457_A = 010, En457_AB = 0x3f, En457_Ba = 65535);
struct En457_Cls { uint64 g0; En457 m; uint8 g1; En457 a[3]; es::Flags<En457, uint8> f8; es::Flags<En457, uint64> f64; es::Flags<En457, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En457_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En458, ENUM, 2, CLASS, 16, En458_A = 010, En458_AB = 0x3f, En458_Ba = 0x7fff);
struct En458_Cls { uint64 g0; En458 m; uint8 g1; En458 a[3]; es::Flags<En458, uint8> f8; es::Flags<En458, uint64> f64; es::Flags<En458, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En458_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En459, ENUM, 2, CLASS, 16, En459_A = 010, En459_AB = 0x3f, En459_Ba = 077u);
struct En459_Cls { uint64 g0; En459 m; uint8 g1; En459 a[3]; es::Flags<En459, uint8> f8; es::Flags<En459, uint64> f64; es::Flags<En459, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En459_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En460, ENUM, 2, CLASS, 16, En460_A = 010, En460_AB = 16384, En460_Ba);
struct En460_Cls { uint64 g0; En460 m; uint8 g1; En460 a[3]; es::Flags<En460, uint8> f8; es::Flags<En460, uint64> f64; es::Flags<En460, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En460_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En461, ENUM, 2, CLASS, 16, En461_A = 010, En461_AB = 16384, En461_Ba = 65535);
struct En461_Cls { uint64 g0; En461 m; uint8 g1; En461 a[3]; es::Flags<En461, uint8> f8; es::Flags<En461, uint64> f64; es::Flags<En461, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En461_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En462, ENUM, 2, CLASS, 16, En462_A = 010, En462_AB = 16384, En462_Ba = 0x7fff);
struct En462_Cls { uint64 g0; En462 m; uint8 g1; En462 a[3]; es::Flags<En462, uint8> f8; es::Flags<En462, uint64> f64; es::Flags<En462, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En462_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En463, ENUM, 2, CLASS, 16, En463_A = 010, En463_AB = 16384, En463_Ba = 077u);
struct En463_Cls { uint64 g0; En463 m; uint8 g1; En463 a[3]; es::Flags<En463, uint8> f8; es::Flags<En463, uint64> f64; es::Flags<En463, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En463_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En464, ENUM, 2, CLASS, 16, En464_A = 0X1f, En464_AB, En464_Ba);
struct En464_Cls { uint64 g0; En464 m; uint8 g1; En464 a[3]; es::Flags<En464, uint8> f8; es::Flags<En464, uint64> f64; es::Flags<En464, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En464_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En465, ENUM, 2, CLASS, 16, En465_A = 0X1f, En465_AB, En465_Ba = 65535);
struct En465_Cls { uint64 g0; En465 m; uint8 g1; En465 a[3]; es::Flags<En465, uint8> f8; es::Flags<En465, uint64> f64; es::Flags<En465, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En465_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En466, ENUM, 2, CLASS, 16, En466_A = 0X1f, En466_AB, En466_Ba = 0x7fff);
struct En466_Cls { uint64 g0; En466 m; uint8 g1; En466 a[3]; es::Flags<En466, uint8> f8; es::Flags<En466, uint64> f64; es::Flags<En466, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En466_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En467, ENUM, 2, CLASS, 16, En467_A = 0X1f, En467_AB, En467_Ba = 077u);
struct En467_Cls { uint64 g0; En467 m; uint8 g1; En467 a[3]; es::Flags<En467, uint8> f8; es::Flags<En467, uint64> f64; es::Flags<En467, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En467_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En468, ENUM, 2, CLASS, 16, En468_A = 0X1f, En468_AB = 40, En468_Ba);
struct En468_Cls { uint64 g0; En468 m; uint8 g1; En468 a[3]; es::Flags<En468, uint8> f8; es::Flags<En468, uint64> f64; es::Flags<En468, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En468_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En469, ENUM, 2, CLASS, 16, En469_A = 0X1f, En469_AB = 40, En469_Ba = 65535);
struct En469_Cls { uint64 g0; En469 m; uint8 g1; En469 a[3]; es::Flags<En469, uint8> f8; es::Flags<En469, uint64> f64; es::Flags<En469, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En469_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En470, ENUM, 2, CLASS, 16, En470_A = 0X1f, En470_AB = 40, En470_Ba = 0x7fff);
struct En470_Cls { uint64 g0; En470 m; uint8 g1; En470 a[3]; es::Flags<En470, uint8> f8; es::Flags<En470, uint64> f64; es::Flags<En470, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En470_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En471, ENUM, 2, CLASS, 16, En471_A = 0X1f, En471_AB = 40, En471_Ba = 077u);
struct En471_Cls { uint64 g0; En471 m; uint8 g1; En471 a[3]; es::Flags<En471, uint8> f8; es::Flags<En471, uint64> f64; es::Flags<En471, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En471_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En472, ENUM, 2, CLASS, 16, En472_A = 0X1f, En472_AB = 0x3f, En472_Ba);
struct En472_Cls { uint64 g0; En472 m; uint8 g1; En472 a[3]; es::Flags<En472, uint8> f8; es::Flags<En472, uint64> f64; es::Flags<En472, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En472_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En473, ENUM, 2, CLASS, 16, En473_A = 0X1f, En473_AB = 0x3f, En473_Ba = 65535);
struct En473_Cls { uint64 g0; En473 m; uint8 g1; En473 a[3]; es::Flags<En473, uint8> f8; es::Flags<En473, uint64> f64; es::Flags<En473, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En473_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En474, ENUM, 2, CLASS, 16, En474_A = 0X1f, En474_AB = 0x3f, En474_Ba = 0x7fff);
struct En474_Cls { uint64 g0; En474 m; uint8 g1; En474 a[3]; es::Flags<En474, uint8> f8; es::Flags<En474, uint64> f64; es::Flags<En474, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En474_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En475, ENUM, 2, CLASS, 16, En475_A = 0X1f, En475_AB = 0x3f, En475_Ba = 077u);
struct En475_Cls { uint64 g0; En475 m; uint8 g1; En475 a[3]; es::Flags<En475, uint8> f8; es::Flags<En475, uint64> f64; es::Flags<En475, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En475_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En476, ENUM, 2, CLASS, 16, En476_A = 0X1f, En476_AB = 16384, En476_Ba);
struct En476_Cls { uint64 g0; En476 m; uint8 g1; En476 a[3]; es::Flags<En476, uint8> f8; es::Flags<En476, uint64> f64; es::Flags<En476, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En476_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En477, ENUM, 2, CLASS, 16, En477_A = 0X1f, En477_AB = 16384, En477_Ba = 65535);
struct En477_Cls { uint64 g0; En477 m; uint8 g1; En477 a[3]; es::Flags<En477, uint8> f8; es::Flags<En477, uint64> f64; es::Flags<En477, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En477_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En478, ENUM, 2, CLASS, 16, En478_A = 0X1f, En478_AB = 16384, En478_Ba = 0x7fff);
struct En478_Cls { uint64 g0; En478 m; uint8 g1; En478 a[3]; es::Flags<En478, uint8> f8; es::Flags<En478, uint64> f64; es::Flags<En478, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En478_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En479, ENUM, 2, CLASS, 16, En479_A = 0X1f, En479_AB = 16384, En479_Ba = 077u);
struct En479_Cls { uint64 g0; En479 m; uint8 g1; En479 a[3]; es::Flags<En479, uint8> f8; es::Flags<En479, uint64> f64; es::Flags<En479, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En479_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En480, ENUM, 2, 32, CLASS, En480_A, En480_AB, En480_Ba);
struct En480_Cls { uint64 g0; En480 m; uint8 g1; En480 a[3]; es::Flags<En480, uint8> f8; es::Flags<En480, uint64> f64; es::Flags<En480, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En480_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En481, ENUM, 2, 32, CLASS, En481_A, En481_AB, En481_Ba = 4294967295);
struct En481_Cls { uint64 g0; En481 m; uint8 g1; En481 a[3]; es::Flags<En481, uint8> f8; es::Flags<En481, uint64> f64; es::Flags<En481, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En481_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En482, ENUM, 2, 32, CLASS, En482_A, En482_AB, En482_Ba = 0x7fffffff);
struct En482_Cls { uint64 g0; En482 m; uint8 g1; En482 a[3]; es::Flags<En482, uint8> f8; es::Flags<En482, uint64> f64; es::Flags<En482, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En482_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En483, ENUM, 2, 32, CLASS, En483_A, En483_AB, En483_Ba = 077u);
struct En483_Cls { uint64 g0; En483 m; uint8 g1; En483 a[3]; es::Flags<En483, uint8> f8; es::Flags<En483, uint64> f64; es::Flags<En483, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En483_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En484, ENUM, 2, 32, CLASS, En484_A, En484_AB = 40, En484_Ba);
struct En484_Cls { uint64 g0; En484 m; uint8 g1; En484 a[3]; es::Flags<En484, uint8> f8; es::Flags<En484, uint64> f64; es::Flags<En484, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En484_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En485, ENUM, 2, 32, CLASS, En485_A, En485_AB = 40, En485_Ba = 4294967295);
struct En485_Cls { uint64 g0; En485 m; uint8 g1; En485 a[3]; es::Flags<En485, uint8> f8; es::Flags<En485, uint64> f64; es::Flags<En485, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En485_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En486, ENUM, 2, 32, CLASS, En486_A, En486_AB = 40, En486_Ba = 0x7fffffff);
struct En486_Cls { uint64 g0; En486 m; uint8 g1; En486 a[3]; es::Flags<En486, uint8> f8; es::Flags<En486, uint64> f64; es::Flags<En486, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En486_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En487, ENUM, 2, 32, CLASS, En487_A, En487_AB = 40, En487_Ba = 077u);
struct En487_Cls { uint64 g0; En487 m; uint8 g1; En487 a[3]; es::Flags<En487, uint8> f8; es::Flags<En487, uint64> f64; es::Flags<En487, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En487_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En488, ENUM, 2, 32, CLASS, En488_A, En488_AB = 0x3f, En488_Ba);
struct En488_Cls { uint64 g0; En488 m; uint8 g1; En488 a[3]; es::Flags<En488, uint8> f8; es::Flags<En488, uint64> f64; es::Flags<En488, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En488_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En489, ENUM, 2, 32, CLASS, En489_A, En489_AB = 0x3f, En489_Ba = 4294967295);
struct En489_Cls { uint64 g0; En489 m; uint8 g1; En489 a[3]; es::Flags<En489, uint8> f8; es::Flags<En489, uint64> f64; es::Flags<En489, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En489_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En490, ENUM, 2, 32, CLASS, En490_A, En490_AB = 0x3f, En490_Ba = 0x7fffffff);
struct En490_Cls { uint64 g0; En490 m; uint8 g1; En490 a[3]; es::Flags<En490, uint8> f8; es::Flags<En490, uint64> f64; es::Flags<En490, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En490_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En491, ENUM, 2, 32, CLASS, En491_A, En491_AB = 0x3f, En491_Ba = 077u);
struct En491_Cls { uint64 g0; En491 m; uint8 g1; En491 a[3]; es::Flags<En491, uint8> f8; es::Flags<En491, uint64> f64; es::Flags<En491, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En491_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En492, ENUM, 2, 32, CLASS, En492_A, En492_AB = 1073741824, En492_Ba);
struct En492_Cls { uint64 g0; En492 m; uint8 g1; En492 a[3]; es::Flags<En492, uint8> f8; es::Flags<En492, uint64> f64; es::Flags<En492, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En492_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En493, ENUM, 2, 32, CLASS, En493_A, En493_AB = 1073741824, En493_Ba = 4294967295);
struct En493_Cls { uint64 g0; En493 m; uint8 g1; En493 a[3]; es::Flags<En493, uint8> f8; es::Flags<En493, uint64> f64; es::Flags<En493, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En493_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En494, ENUM, 2, 32, CLASS, En494_A, En494_AB = 1073741824, En494_Ba = 0x7fffffff);
struct En494_Cls { uint64 g0; En494 m; uint8 g1; En494 a[3]; es::Flags<En494, uint8> f8; es::Flags<En494, uint64> f64; es::Flags<En494, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En494_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En495, ENUM, 2, 32, CLASS, En495_A, En495_AB = 1073741824, En495_Ba = 077u);
struct En495_Cls { uint64 g0; En495 m; uint8 g1; En495 a[3]; es::Flags<En495, uint8> f8; es::Flags<En495, uint64> f64; es::Flags<En495, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En495_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En496, ENUM, 2, 32, CLASS, En496_A = 3, En496_AB, En496_Ba);
struct En496_Cls { uint64 g0; En496 m; uint8 g1; En496 a[3]; es::Flags<En496, uint8> f8; es::Flags<En496, uint64> f64; es::Flags<En496, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En496_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En497, ENUM, 2, 32, CLASS, En497_A = 3, En497_AB, En497_Ba = 4294967295);
struct En497_Cls { uint64 g0; En497 m; uint8 g1; En497 a[3]; es::Flags<En497, uint8> f8; es::Flags<En497, uint64> f64; es::Flags<En497, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En497_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En498, ENUM, 2, 32, CLASS, En498_A = 3, En498_AB, En498_Ba = 0x7fffffff);
struct En498_Cls { uint64 g0; En498 m; uint8 g1; En498 a[3]; es::Flags<En498, uint8> f8; es::Flags<En498, uint64> f64; es::Flags<En498, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En498_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En499, ENUM, 2, 32, CLASS, En499_A = 3, En499_AB, En499_Ba = 077u);
struct En499_Cls { uint64 g0; En499 m; uint8 g1; En499 a[3]; es::Flags<En499, uint8> f8; es::Flags<En499, uint64> f64; es::Flags<En499, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En499_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En500, ENUM, 2, 32, CLASS, En500_A = 3, En500_AB = 40, En500_Ba);
struct En500_Cls { uint64 g0; En500 m; uint8 g1; En500 a[3]; es::Flags<En500, uint8> f8; es::Flags<En500, uint64> f64; es::Flags<En500, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En500_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En501, ENUM, 2, 32, CLASS, En501_A = 3, En501_AB = 40, En501_Ba = 4294967295);
struct En501_Cls { uint64 g0; En501 m; uint8 g1; En501 a[3]; es::Flags<En501, uint8> f8; es::Flags<En501, uint64> f64; es::Flags<En501, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En501_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En502, ENUM, 2, 32, CLASS, En502_A = 3, En502_AB = 40, En502_Ba = 0x7fffffff);
struct En502_Cls { uint64 g0; En502 m; uint8 g1; En502 a[3]; es::Flags<En502, uint8> f8; es::Flags<En502, uint64> f64; es::Flags<En502, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En502_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En503, ENUM, 2, 32, CLASS, En503_A = 3, En503_AB = 40, En503_Ba = 077u);
struct En503_Cls { uint64 g0; En503 m; uint8 g1; En503 a[3]; es::Flags<En503, uint8> f8; es::Flags<En503, uint64> f64; es::Flags<En503, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En503_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En504, ENUM, 2, 32, CLASS, En504_A = 3, En504_AB = 0x3f, En504_Ba);
struct En504_Cls { uint64 g0; En504 m; uint8 g1; En504 a[3]; es::Flags<En504, uint8> f8; es::Flags<En504, uint64> f64; es::Flags<En504, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En504_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En505, ENUM, 2, 32, CLASS, En505_A = 3, En505_AB = 0x3f, En505_Ba = 4294967295);
struct En505_Cls { uint64 g0; En505 m; uint8 g1; En505 a[3]; es::Flags<En505, uint8> f8; es::Flags<En505, uint64> f64; es::Flags<En505, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En505_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En506, ENUM, 2, 32, CLASS, En506_A = 3, En506_AB = 0x3f, En506_Ba = 0x7fffffff);
struct En506_Cls { uint64 g0; En506 m; uint8 g1; En506 a[3]; es::Flags<En506, uint8> f8; es::Flags<En506, uint64> f64; es::Flags<En506, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En506_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En507, ENUM, 2, 32, CLASS, En507_A = 3, En507_AB = 0x3f, En507_Ba = 077u);
struct En507_Cls { uint64 g0; En507 m; uint8 g1; En507 a[3]; es::Flags<En507, uint8> f8; es::Flags<En507, uint64> f64; es::Flags<En507, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En507_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En508, ENUM, 2, 32, CLASS, En508_A = 3, En508_AB = 1073741824, En508_Ba);
struct En508_Cls { uint64 g0; En508 m; uint8 g1; En508 a[3]; es::Flags<En508, uint8> f8; es::Flags<En508, uint64> f64; es::Flags<En508, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En508_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En509, ENUM, 2, 32, CLASS, En509_A = 3, En509_AB = 1073741824, En509_Ba = 4294967295);
struct En509_Cls { uint64 g0; En509 m; uint8 g1; En509 a[3]; es::Flags<En509, uint8> f8; es::Flags<En509, uint64> f64; es::Flags<En509, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En509_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En510, ENUM, 2, 32, CLASS, En510_A = 3, En510_AB = 1073741824, En510_Ba = 0x7fffffff);
struct En510_Cls { uint64 g0; En510 m; uint8 g1; En510 a[3]; es::Flags<En510, uint8> f8; es::Flags<En510, uint64> f64; es::Flags<En510, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En510_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En511, ENUM, 2, 32, CLASS, En511_A = 3, En511_AB = 1073741824, En511_Ba = 077u);
struct En511_Cls { uint64 g0; En511 m; uint8 g1; En511 a[3]; es::Flags<En511, uint8> f8; es::Flags<En511, uint64> f64; es::Flags<En511, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En511_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En512, ENUM, 2, 32, CLASS, En512_A = 0x11, En512_AB, En512_Ba);
struct En512_Cls { uint64 g0; En512 m; uint8 g1; En512 a[3]; es::Flags<En512, uint8> f8; es::Flags<En512, uint64> f64; es::Flags<En512, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En512_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En513, ENUM, 2, 32, CLASS, En513_A = 0x11, En513_AB, En513_Ba = 4294967295);
struct En513_Cls { uint64 g0; En513 m; uint8 g1; En513 a[3]; es::Flags<En513, uint8> f8; es::Flags<En513, uint64> f64; es::Flags<En513, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En513_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En514, ENUM, 2, 32, CLASS, En514_A = 0x11, En514_AB, En514_Ba = 0x7fffffff);
struct En514_Cls { uint64 g0; En514 m; uint8 g1; En514 a[3]; es::Flags<En514, uint8> f8; es::Flags<En514, uint64> f64; es::Flags<En514, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En514_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En515, ENUM, 2, 32, CLASS, En515_A = 0x11, En515_AB, En515_Ba = 077u);
struct En515_Cls { uint64 g0; En515 m; uint8 g1; En515 a[3]; es::Flags<En515, uint8> f8; es::Flags<En515, uint64> f64; es::Flags<En515, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En515_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En516, ENUM, 2, 32, CLASS, En516_A = 0x11, En516_AB = 40, En516_Ba);
struct En516_Cls { uint64 g0; En516 m; uint8 g1; En516 a[3]; es::Flags<En516, uint8> f8; es::Flags<En516, uint64> f64; es::Flags<En516, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En516_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En517, ENUM, 2, 32, CLASS, En517_A = 0x11, En517_AB = 40, En517_Ba = 4294967295);
struct En517_Cls { uint64 g0; En517 m; uint8 g1; En517 a[3]; es::Flags<En517, uint8> f8; es::Flags<En517, uint64> f64; es::Flags<En517, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En517_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En518, ENUM, 2, 32, CLASS, En518_A = 0x11, En518_AB = 40, En518_Ba = 0x7fffffff);
struct En518_Cls { uint64 g0; En518 m; uint8 g1; En518 a[3]; es::Flags<En518, uint8> f8; es::Flags<En518, uint64> f64; es::Flags<En518, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En518_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En519, ENUM, 2, 32, CLASS, En519_A = 0x11, En519_AB = 40, En519_Ba = 077u);
struct En519_Cls { uint64 g0; En519 m; uint8 g1; En519 a[3]; es::Flags<En519, uint8> f8; es::Flags<En519, uint64> f64; es::Flags<En519, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En519_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En520, ENUM, 2, 32, CLASS, En520_A = 0x11, En520_AB = 0x3f, En520_Ba);
struct En520_Cls { uint64 g0; En520 m; uint8 g1; En520 a[3]; es::Flags<En520, uint8> f8; es::Flags<En520, uint64> f64; es::Flags<En520, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En520_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En521, ENUM, 2, 32, CLASS, En521_A = 0x11, En521_AB = 0x3f, En521_Ba = 4294967295);
struct En521_Cls { uint64 g0; En521 m; uint8 g1; En521 a[3]; es::Flags<En521, uint8> f8; es::Flags<En521, uint64> f64; es::Flags<En521, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En521_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En522, ENUM, 2, 32, CLASS, En522_A = 0x11, En522_AB = 0x3f, En522_Ba = 0x7fffffff);
struct En522_Cls { uint64 g0; En522 m; uint8 g1; En522 a[3]; es::Flags<En522, uint8> f8; es::Flags<En522, uint64> f64; es::Flags<En522, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En522_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En523, ENUM, 2, 32, CLASS, En523_A = 0x11, En523_AB = 0x3f, En523_Ba = 077u);
struct En523_Cls { uint64 g0; En523 m; uint8 g1; En523 a[3]; es::Flags<En523, uint8> f8; es::Flags<En523, uint64> f64; es::Flags<En523, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En523_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En524, ENUM, 2, 32, CLASS, En524_A = 0x11, En524_AB = 1073741824, En524_Ba);
struct En524_Cls { uint64 g0; En524 m; uint8 g1; En524 a[3]; es::Flags<En524, uint8> f8; es::Flags<En524, uint64> f64; es::Flags<En524, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En524_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En525, ENUM, 2, 32, CLASS, En525_A = 0x11, En525_AB = 1073741824, En525_Ba = 4294967295);
struct En525_Cls { uint64 g0; En525 m; uint8 g1; En525 a[3]; es::Flags<En525, uint8> f8; es::Flags<En525, uint64> f64; es::Flags<En525, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En525_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En526, ENUM, 2, 32, CLASS, En526_A = 0x11, En526_AB = 1073741824, En526_Ba = 0x7fffffff);
struct En526_Cls { uint64 g0; En526 m; uint8 g1; En526 a[3]; es::Flags<En526, uint8> f8; es::Flags<En526, uint64> f64; es::Flags<En526, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En526_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En527, ENUM, 2, 32, CLASS, En527_A = 0x11, En527_AB = 1073741824, En527_Ba = 077u);
struct En527_Cls { uint64 g0; En527 m; uint8 g1; En527 a[3]; es::Flags<En527, uint8> f8; es::Flags<En527, uint64> f64; es::Flags<En527, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En527_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En528, ENUM, 2, 32, CLASS, En528_A=1, En528_AB, En528_Ba);
struct En528_Cls { uint64 g0; En528 m; uint8 g1; En528 a[3]; es::Flags<En528, uint8> f8; es::Flags<En528, uint64> f64; es::Flags<En528, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En528_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En529, ENUM, 2, 32, CLASS, En529_A=1, En529_AB, En529_Ba = 4294967295);
struct En529_Cls { uint64 g0; En529 m; uint8 g1; En529 a[3]; es::Flags<En529, uint8> f8; es::Flags<En529, uint64> f64; es::Flags<En529, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En529_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En530, ENUM, 2, 32, CLASS, En530_A=1, En530_AB, En530_Ba = 0x7fffffff);
struct En530_Cls { uint64 g0; En530 m; uint8 g1; En530 a[3]; es::Flags<En530, uint8> f8; es::Flags<En530, uint64> f64; es::Flags<En530, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En530_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En531, ENUM, 2, 32, CLASS, En531_A=1, En531_AB, En531_Ba = 077u);
struct En531_Cls { uint64 g0; En531 m; uint8 g1; En531 a[3]; es::Flags<En531, uint8> f8; es::Flags<En531, uint64> f64; es::Flags<En531, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En531_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En532, ENUM, 2, 32, CLASS, En532_A=1, En532_AB = 40, En532_Ba);
struct En532_Cls { uint64 g0; En532 m; uint8 g1; En532 a[3]; es::Flags<En532, uint8> f8; es::Flags<En532, uint64> f64; es::Flags<En532, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En532_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En533, ENUM, 2, 32, CLASS, En533_A=1, En533_AB = 40, En533_Ba = 4294967295);
struct En533_Cls { uint64 g0; En533 m; uint8 g1; En533 a[3]; es::Flags<En533, uint8> f8; es::Flags<En533, uint64> f64; es::Flags<En533, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En533_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En534, ENUM, 2, 32, CLASS, En534_A=1, En534_AB = 40, En534_Ba = 0x7fffffff);
struct En534_Cls { uint64 g0; En534 m; uint8 g1; En534 a[3]; es::Flags<En534, uint8> f8; es::Flags<En534, uint64> f64; es::Flags<En534, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En534_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En535, ENUM, 2, 32, CLASS, En535_A=1, En535_AB = 40, En535_Ba = 077u);
struct En535_Cls { uint64 g0; En535 m; uint8 g1; En535 a[3]; es::Flags<En535, uint8> f8; es::Flags<En535, uint64> f64; es::Flags<En535, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En535_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En536, ENUM, 2, 32, CLASS, En536_A=1, En536_AB = 0x3f, En536_Ba);
struct En536_Cls { uint64 g0; En536 m; uint8 g1; En536 a[3]; es::Flags<En536, uint8> f8; es::Flags<En536, uint64> f64; es::Flags<En536, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En536_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En537, ENUM, 2, 32, CLASS, En537_A=1, En537_AB = 0x3f, En537_Ba = 4294967295);
struct En537_Cls { uint64 g0; En537 m; uint8 g1; En537 a[3]; es::Flags<En537, uint8> f8; es::Flags<En537, uint64> f64; es::Flags<En537, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En537_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En538, ENUM, 2, 32, CLASS, En538_A=1, En538_AB = 0x3f, En538_Ba = 0x7fffffff);
struct En538_Cls { uint64 g0; En538 m; uint8 g1; En538 a[3]; es::Flags<En538, uint8> f8; es::Flags<En538, uint64> f64; es::Flags<En538, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En538_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En539, ENUM, 2, 32, CLASS, En539_A=1, En539_AB = 0x3f, En539_Ba = 077u);
struct En539_Cls { uint64 g0; En539 m; uint8 g1; En539 a[3]; es::Flags<En539, uint8> f8; es::Flags<En539, uint64> f64; es::Flags<En539, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En539_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En540, ENUM, 2, 32, CLASS, En540_A=1, En540_AB = 1073741824, En540_Ba);
struct En540_Cls { uint64 g0; En540 m; uint8 g1; En540 a[3]; es::Flags<En540, uint8> f8; es::Flags<En540, uint64> f64; es::Flags<En540, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En540_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En541, ENUM, 2, 32, CLASS, En541_A=1, En541_AB = 1073741824, En541_Ba = 4294967295);
struct En541_Cls { uint64 g0; En541 m; uint8 g1; En541 a[3]; es::Flags<En541, uint8> f8; es::Flags<En541, uint64> f64; es::Flags<En541, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En541_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En542, ENUM, 2, 32, CLASS, En542_A=1, En542_AB = 1073741824, En542_Ba = 0x7fffffff);
struct En542_Cls { uint64 g0; En542 m; uint8 g1; En542 a[3]; es::Flags<En542, uint8> f8; es::Flags<En542, uint64> f64; es::Flags<En542, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En542_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En543, ENUM, 2, 32, CLASS, En543_A=1, En543_AB = 1073741824, En543_Ba = 077u);
struct En543_Cls { uint64 g0; En543 m; uint8 g1; En543 a[3]; es::Flags<En543, uint8> f8; es::Flags<En543, uint64> f64; es::Flags<En543, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En543_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En544, ENUM, 2, 32, CLASS, En544_A = 010, En544_AB, En544_Ba);
struct En544_Cls { uint64 g0; En544 m; uint8 g1; En544 a[3]; es::Flags<En544, uint8> f8; es::Flags<En544, uint64> f64; es::Flags<En544, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En544_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En545, ENUM, 2, 32, CLASS, En545_A = 010, En545_AB, En545_Ba = 4294967295);
struct En545_Cls { uint64 g0; En545 m; uint8 g1; En545 a[3]; es::Flags<En545, uint8> f8; es::Flags<En545, uint64> f64; es::Flags<En545, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En545_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En546, ENUM, 2, 32, CLASS, En546_A = 010, En546_AB, En546_Ba = 0x7fffffff);
struct En546_Cls { uint64 g0; En546 m; uint8 g1; En546 a[3]; es::Flags<En546, uint8> f8; es::Flags<En546, uint64> f64; es::Flags<En546, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En546_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En547, ENUM, 2, 32, CLASS, En547_A = 010, En547_AB, En547_Ba = 077u);
struct En547_Cls { uint64 g0; En547 m; uint8 g1; En547 a[3]; es::Flags<En547, uint8> f8; es::Flags<En547, uint64> f64; es::Flags<En547, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En547_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En548, ENUM, 2, 32, CLASS, En548_A = 010, En548_AB = 40, En548_Ba);
struct En548_Cls { uint64 g0; En548 m; uint8 g1; En548 a[3]; es::Flags<En548, uint8> f8; es::Flags<En548, uint64> f64; es::Flags<En548, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En548_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En549, ENUM, 2, 32, CLASS, En549_A = 010, En549_AB = 40, En549_Ba = 4294967295);
struct En549_Cls { uint64 g0; En549 m; uint8 g1; En549 a[3]; es::Flags<En549, uint8> f8; es::Flags<En549, uint64> f64; es::Flags<En549, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En549_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En550, ENUM, 2, 32, CLASS, En550_A = 010, En550_AB = 40, En550_Ba = 0x7fffffff);
struct En550_Cls { uint64 g0; En550 m; uint8 g1; En550 a[3]; es::Flags<En550, uint8> f8; es::Flags<En550, uint64> f64; es::Flags<En550, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En550_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En551, ENUM, 2, 32, CLASS, En551_A = 010, En551_AB = 40, En551_Ba = 077u);
struct En551_Cls { uint64 g0; En551 m; uint8 g1; En551 a[3]; es::Flags<En551, uint8> f8; es::Flags<En551, uint64> f64; es::Flags<En551, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En551_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En552, ENUM, 2, 32, CLASS, En552_A = 010, En552_AB = 0x3f, En552_Ba);
struct En552_Cls { uint64 g0; En552 m; uint8 g1; En552 a[3]; es::Flags<En552, uint8> f8; es::Flags<En552, uint64> f64; es::Flags<En552, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En552_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En553, ENUM, 2, 32, CLASS, En553_A = 010, En553_AB = 0x3f, En553_Ba = 4294967295);
struct En553_Cls { uint64 g0; En553 m; uint8 g1; En553 a[3]; es::Flags<En553, uint8> f8; es::Flags<En553, uint64> f64; es::Flags<En553, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En553_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En554, ENUM, 2, 32, CLASS, En554_A = 010, En554_AB = 0x3f, En554_Ba = 0x7fffffff);
struct En554_Cls { uint64 g0; En554 m; uint8 g1; En554 a[3]; es::Flags<En554, uint8> f8; es::Flags<En554, uint64> f64; es::Flags<En554, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En554_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En555, ENUM, 2, 32, CLASS, En555_A = 010, En555_AB = 0x3f, En555_Ba = 077u);
struct En555_Cls { uint64 g0; En555 m; uint8 g1; En555 a[3]; es::Flags<En555, uint8> f8; es::Flags<En555, uint64> f64; es::Flags<En555, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En555_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En556, ENUM, 2, 32, CLASS, En556_A = 010, En556_AB = 1073741824, En556_Ba);
struct En556_Cls { uint64 g0; En556 m; uint8 g1; En556 a[3]; es::Flags<En556, uint8> f8; es::Flags<En556, uint64> f64; es::Flags<En556, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En556_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En557, ENUM, 2, 32, CLASS, En557_A = 010, En557_AB = 1073741824, En557_Ba = 4294967295);
struct En557_Cls { uint64 g0; En557 m; uint8 g1; En557 a[3]; es::Flags<En557, uint8> f8; es::Flags<En557, uint64> f64; es::Flags<En557, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En557_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En558, ENUM, 2, 32, CLASS, En558_A = 010, En558_AB = 1073741824, En558_Ba = 0x7fffffff);
struct En558_Cls { uint64 g0; En558 m; uint8 g1; En558 a[3]; es::Flags<En558, uint8> f8; es::Flags<En558, uint64> f64; es::Flags<En558, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En558_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En559, ENUM, 2, 32, CLASS, En559_A = 010, En559_AB = 1073741824, En559_Ba = 077u);
struct En559_Cls { uint64 g0; En559 m; uint8 g1; En559 a[3]; es::Flags<En559, uint8> f8; es::Flags<En559, uint64> f64; es::Flags<En559, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En559_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En560, ENUM, 2, 32, CLASS, En560_A = 0X1f, En560_AB, En560_Ba);
struct En560_Cls { uint64 g0; En560 m; uint8 g1; En560 a[3]; es::Flags<En560, uint8> f8; es::Flags<En560, uint64> f64; es::Flags<En560, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En560_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En561, ENUM, 2, 32, CLASS, En561_A = 0X1f, En561_AB, En561_Ba = 4294967295);
struct En561_Cls { uint64 g0; En561 m; uint8 g1; En561 a[3]; es::Flags<En561, uint8> f8; es::Flags<En561, uint64> f64; es::Flags<En561, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En561_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En562, ENUM, 2, 32, CLASS, En562_A = 0X1f, En562_AB, En562_Ba = 0x7fffffff);
struct En562_Cls { uint64 g0; En562 m; uint8 g1; En562 a[3]; es::Flags<En562, uint8> f8; es::Flags<En562, uint64> f64; es::Flags<En562, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En562_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En563, ENUM, 2, 32, CLASS, En563_A = 0X1f, En563_AB, En563_Ba = 077u);
struct En563_Cls { uint64 g0; En563 m; uint8 g1; En563 a[3]; es::Flags<En563, uint8> f8; es::Flags<En563, uint64> f64; es::Flags<En563, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En563_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En564, ENUM, 2, 32, CLASS, En564_A = 0X1f, En564_AB = 40, En564_Ba);
struct En564_Cls { uint64 g0; En564 m; uint8 g1; En564 a[3]; es::Flags<En564, uint8> f8; es::Flags<En564, uint64> f64; es::Flags<En564, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En564_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En565, ENUM, 2, 32, CLASS, En565_A = 0X1f, En565_AB = 40, En565_Ba = 4294967295);
struct En565_Cls { uint64 g0; En565 m; uint8 g1; En565 a[3]; es::Flags<En565, uint8> f8; es::Flags<En565, uint64> f64; es::Flags<En565, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En565_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En566, ENUM, 2, 32, CLASS, En566_A = 0X1f, En566_AB = 40, En566_Ba = 0x7fffffff);
struct En566_Cls { uint64 g0; En566 m; uint8 g1; En566 a[3]; es::Flags<En566, uint8> f8; es::Flags<En566, uint64> f64; es::Flags<En566, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En566_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En567, ENUM, 2, 32, CLASS, En567_A = 0X1f, En567_AB = 40, En567_Ba = 077u);
struct En567_Cls { uint64 g0; En567 m; uint8 g1; En567 a[3]; es::Flags<En567, uint8> f8; es::Flags<En567, uint64> f64; es::Flags<En567, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En567_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En568, ENUM, 2, 32, CLASS, En568_A = 0X1f, En568_AB = 0x3f, En568_Ba);
struct En568_Cls { uint64 g0; En568 m; uint8 g1; En568 a[3]; es::Flags<En568, uint8> f8; es::Flags<En568, uint64> f64; es::Flags<En568, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En568_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En569, ENUM, 2, 32, CLASS, En569_A = 0X1f, En569_AB = 0x3f, En569_Ba = 4294967295);
struct En569_Cls { uint64 g0; En569 m; uint8 g1; En569 a[3]; es::Flags<En569, uint8> f8; es::Flags<En569, uint64> f64; es::Flags<En569, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En569_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En570, ENUM, 2, 32, CLASS, En570_A = 0X1f, En570_AB = 0x3f, En570_Ba = 0x7fffffff);
struct En570_Cls { uint64 g0; En570 m; uint8 g1; En570 a[3]; es::Flags<En570, uint8> f8; es::Flags<En570, uint64> f64; es::Flags<En570, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En570_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En571, ENUM, 2, 32, CLASS, En571_A = 0X1f, En571_AB = 0x3f, En571_Ba = 077u);
struct En571_Cls { uint64 g0; En571 m; uint8 g1; En571 a[3]; es::Flags<En571, uint8> f8; es::Flags<En571, uint64> f64; es::Flags<En571, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En571_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En572, ENUM, 2, 32, CLASS, En572_A = 0X1f, En572_AB = 1073741824, En572_Ba);
struct En572_Cls { uint64 g0; En572 m; uint8 g1; En572 a[3]; es::Flags<En572, uint8> f8; es::Flags<En572, uint64> f64; es::Flags<En572, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En572_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En573, ENUM, 2, 32, CLASS, En573_A = 0X1f, En573_AB = 1073741824, En573_Ba = 4294967295);
struct En573_Cls { uint64 g0; En573 m; uint8 g1; En573 a[3]; es::Flags<En573, uint8> f8; es::Flags<En573, uint64> f64; es::Flags<En573, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En573_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En574, ENUM, 2, 32, CLASS, En574_A = 0X1f, En574_AB = 1073741824, En574_Ba = 0x7fffffff);
struct En574_Cls { uint64 g0; En574 m; uint8 g1; En574 a[3]; es::Flags<En574, uint8> f8; es::Flags<En574, uint64> f64; es::Flags<En574, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En574_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En575, ENUM, 2, 32, CLASS, En575_A = 0X1f, En575_AB = 1073741824, En575_Ba = 077u);
struct En575_Cls { uint64 g0; En575 m; uint8 g1; En575 a[3]; es::Flags<En575, uint8> f8; es::Flags<En575, uint64> f64; es::Flags<En575, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En575_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En576, ENUM, 2, CLASS, 64, En576_A, En576_AB, En576_Ba);
struct En576_Cls { uint64 g0; En576 m; uint8 g1; En576 a[3]; es::Flags<En576, uint8> f8; es::Flags<En576, uint64> f64; es::Flags<En576, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En576_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En577, ENUM, 2, CLASS, 64, En577_A, En577_AB, En577_Ba = 18446744073709551615ULL);
struct En577_Cls { uint64 g0; En577 m; uint8 g1; En577 a[3]; es::Flags<En577, uint8> f8; es::Flags<En577, uint64> f64; es::Flags<En577, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En577_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En578, ENUM, 2, CLASS, 64, En578_A, En578_AB, En578_Ba = 0x7fffffffffffffff);
struct En578_Cls { uint64 g0; En578 m; uint8 g1; En578 a[3]; es::Flags<En578, uint8> f8; es::Flags<En578, uint64> f64; es::Flags<En578, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En578_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En579, ENUM, 2, CLASS, 64, En579_A, En579_AB, En579_Ba = 077u);
struct En579_Cls { uint64 g0; En579 m; uint8 g1; En579 a[3]; es::Flags<En579, uint8> f8; es::Flags<En579, uint64> f64; es::Flags<En579, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En579_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En580, ENUM, 2, CLASS, 64, En580_A, En580_AB = 40, En580_Ba);
struct En580_Cls { uint64 g0; En580 m; uint8 g1; En580 a[3]; es::Flags<En580, uint8> f8; es::Flags<En580, uint64> f64; es::Flags<En580, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En580_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En581, ENUM, 2, CLASS, 64, En581_A, En581_AB = 40, En581_Ba = 18446744073709551615ULL);
struct En581_Cls { uint64 g0; En581 m; uint8 g1; En581 a[3]; es::Flags<En581, uint8> f8; es::Flags<En581, uint64> f64; es::Flags<En581, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En581_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En582, ENUM, 2, CLASS, 64, En582_A, En582_AB = 40, En582_Ba = 0x7fffffffffffffff);
struct En582_Cls { uint64 g0; En582 m; uint8 g1; En582 a[3]; es::Flags<En582, uint8> f8; es::Flags<En582, uint64> f64; es::Flags<En582, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En582_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En583, ENUM, 2, CLASS, 64, En583_A, En583_AB = 40, En583_Ba = 077u);
struct En583_Cls { uint64 g0; En583 m; uint8 g1; En583 a[3]; es::Flags<En583, uint8> f8; es::Flags<En583, uint64> f64; es::Flags<En583, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En583_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En584, ENUM, 2, CLASS, 64, En584_A, En584_AB = 0x3f, En584_Ba);
struct En584_Cls { uint64 g0; En584 m; uint8 g1; En584 a[3]; es::Flags<En584, uint8> f8; es::Flags<En584, uint64> f64; es::Flags<En584, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En584_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En585, ENUM, 2, CLASS, 64, En585_A, En585_AB = 0x3f, En585_Ba = 18446744073709551615ULL);
struct En585_Cls { uint64 g0; En585 m; uint8 g1; En585 a[3]; es::Flags<En585, uint8> f8; es::Flags<En585, uint64> f64; es::Flags<En585, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En585_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En586, ENUM, 2, CLASS, 64, En586_A, En586_AB = 0x3f, En586_Ba = 0x7fffffffffffffff);
struct En586_Cls { uint64 g0; En586 m; uint8 g1; En586 a[3]; es::Flags<En586, uint8> f8; es::Flags<En586, uint64> f64; es::Flags<En586, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En586_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En587, ENUM, 2, CLASS, 64, En587_A, En587_AB = 0x3f, En587_Ba = 077u);
struct En587_Cls { uint64 g0; En587 m; uint8 g1; En587 a[3]; es::Flags<En587, uint8> f8; es::Flags<En587, uint64> f64; es::Flags<En587, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En587_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En588, ENUM, 2, CLASS, 64, En588_A, En588_AB = 4611686018427387904, En588_Ba);
struct En588_Cls { uint64 g0; En588 m; uint8 g1; En588 a[3]; es::Flags<En588, uint8> f8; es::Flags<En588, uint64> f64; es::Flags<En588, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En588_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En589, ENUM, 2, CLASS, 64, En589_A, En589_AB = 4611686018427387904, En589_Ba = 18446744073709551615ULL);
struct En589_Cls { uint64 g0; En589 m; uint8 g1; En589 a[3]; es::Flags<En589, uint8> f8; es::Flags<En589, uint64> f64; es::Flags<En589, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En589_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En590, ENUM, 2, CLASS, 64, En590_A, En590_AB = 4611686018427387904, En590_Ba = 0x7fffffffffffffff);
struct En590_Cls { uint64 g0; En590 m; uint8 g1; En590 a[3]; es::Flags<En590, uint8> f8; es::Flags<En590, uint64> f64; es::Flags<En590, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En590_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En591, ENUM, 2, CLASS, 64, En591_A, En591_AB = 4611686018427387904, En591_Ba = 077u);
struct En591_Cls { uint64 g0; En591 m; uint8 g1; En591 a[3]; es::Flags<En591, uint8> f8; es::Flags<En591, uint64> f64; es::Flags<En591, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En591_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En592, ENUM, 2, CLASS, 64, En592_A = 3, En592_AB, En592_Ba);
struct En592_Cls { uint64 g0; En592 m; uint8 g1; En592 a[3]; es::Flags<En592, uint8> f8; es::Flags<En592, uint64> f64; es::Flags<En592, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En592_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En593, ENUM, 2, CLASS, 64, En593_A = 3, En593_AB, En593_Ba = 18446744073709551615ULL);
struct En593_Cls { uint64 g0; En593 m; uint8 g1; En593 a[3]; es::Flags<En593, uint8> f8; es::Flags<En593, uint64> f64; es::Flags<En593, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En593_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En594, ENUM, 2, CLASS, 64, En594_A = 3, En594_AB, En594_Ba = 0x7fffffffffffffff);
struct En594_Cls { uint64 g0; En594 m; uint8 g1; En594 a[3]; es::Flags<En594, uint8> f8; es::Flags<En594, uint64> f64; es::Flags<En594, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En594_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En595, ENUM, 2, CLASS, 64, En595_A = 3, En595_AB, En595_Ba = 077u);
struct En595_Cls { uint64 g0; En595 m; uint8 g1; En595 a[3]; es::Flags<En595, uint8> f8; es::Flags<En595, uint64> f64; es::Flags<En595, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En595_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En596, ENUM, 2, CLASS, 64, En596_A = 3, En596_AB = 40, En596_Ba);
struct En596_Cls { uint64 g0; En596 m; uint8 g1; En596 a[3]; es::Flags<En596, uint8> f8; es::Flags<En596, uint64> f64; es::Flags<En596, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En596_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En597, ENUM, 2, CLASS, 64, En597_A = 3, En597_AB = 40, En597_Ba = 18446744073709551615ULL);
struct En597_Cls { uint64 g0; En597 m; uint8 g1; En597 a[3]; es::Flags<En597, uint8> f8; es::Flags<En597, uint64> f64; es::Flags<En597, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En597_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En598, ENUM, 2, CLASS, 64, En598_A = 3, En598_AB = 40, En598_Ba = 0x7fffffffffffffff);
struct En598_Cls { uint64 g0; En598 m; uint8 g1; En598 a[3]; es::Flags<En598, uint8> f8; es::Flags<En598, uint64> f64; es::Flags<En598, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En598_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En599, ENUM, 2, CLASS, 64, En599_A = 3, En599_AB = 40, En599_Ba = 077u);
struct En599_Cls { uint64 g0; En599 m; uint8 g1; En599 a[3]; es::Flags<En599, uint8> f8; es::Flags<En599, uint64> f64; es::Flags<En599, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En599_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En600, ENUM, 2, CLASS, 64, En600_A = 3, En600_AB = 0x3f, En600_Ba);
struct En600_Cls { uint64 g0; En600 m; uint8 g1; En600 a[3]; es::Flags<En600, uint8> f8; es::Flags<En600, uint64> f64; es::Flags<En600, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En600_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En601, ENUM, 2, CLASS, 64, En601_A = 3, En601_AB = 0x3f, En601_Ba = 18446744073709551615ULL);
struct En601_Cls { uint64 g0; En601 m; uint8 g1; En601 a[3]; es::Flags<En601, uint8> f8; es::Flags<En601, uint64> f64; es::Flags<En601, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En601_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En602, ENUM, 2, CLASS, 64, En602_A = 3, En602_AB = 0x3f, En602_Ba = 0x7fffffffffffffff);
struct En602_Cls { uint64 g0; En602 m; uint8 g1; En602 a[3]; es::Flags<En602, uint8> f8; es::Flags<En602, uint64> f64; es::Flags<En602, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En602_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En603, ENUM, 2, CLASS, 64, En603_A = 3, En603_AB = 0x3f, En603_Ba = 077u);
struct En603_Cls { uint64 g0; En603 m; uint8 g1; En603 a[3]; es::Flags<En603, uint8> f8; es::Flags<En603, uint64> f64; es::Flags<En603, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En603_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En604, ENUM, 2, CLASS, 64, En604_A = 3, En604_AB = 4611686018427387904, En604_Ba);
struct En604_Cls { uint64 g0; En604 m; uint8 g1; En604 a[3]; es::Flags<En604, uint8> f8; es::Flags<En604, uint64> f64; es::Flags<En604, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En604_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En605, ENUM, 2, CLASS, 64, En605_A = 3, En605_AB = 4611686018427387904, En605_Ba = 18446744073709551615ULL);
struct En605_Cls { uint64 g0; En605 m; uint8 g1; En605 a[3]; es::Flags<En605, uint8> f8; es::Flags<En605, uint64> f64; es::Flags<En605, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En605_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En606, ENUM, 2, CLASS, 64, En606_A = 3, En606_AB = 4611686018427387904, En606_Ba = 0x7fffffffffffffff);
struct En606_Cls { uint64 g0; En606 m; uint8 g1; En606 a[3]; es::Flags<En606, uint8> f8; es::Flags<En606, uint64> f64; es::Flags<En606, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En606_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En607, ENUM, 2, CLASS, 64, En607_A = 3, En607_AB = 4611686018427387904, En607_Ba = 077u);
struct En607_Cls { uint64 g0; En607 m; uint8 g1; En607 a[3]; es::Flags<En607, uint8> f8; es::Flags<En607, uint64> f64; es::Flags<En607, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En607_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En608, ENUM, 2, CLASS, 64, En608_A = 0x11, En608_AB, En608_Ba);
struct En608_Cls { uint64 g0; En608 m; uint8 g1; En608 a[3]; es::Flags<En608, uint8> f8; es::Flags<En608, uint64> f64; es::Flags<En608, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En608_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En609, ENUM, 2, CLASS, 64, En609_A = 0x11, En609_AB, En609_Ba = 18446744073709551615ULL);
struct En609_Cls { uint64 g0; En609 m; uint8 g1; En609 a[3]; es::Flags<En609, uint8> f8; es::Flags<En609, uint64> f64; es::Flags<En609, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En609_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En610, ENUM, 2, CLASS, 64, En610_A = 0x11, En610_AB, En610_Ba = 0x7fffffffffffffff);
struct En610_Cls { uint64 g0; En610 m; uint8 g1; En610 a[3]; es::Flags<En610, uint8> f8; es::Flags<En610, uint64> f64; es::Flags<En610, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En610_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En611, ENUM, 2, CLASS, 64, En611_A = 0x11, En611_AB, En611_Ba = 077u);
struct En611_Cls { uint64 g0; En611 m; uint8 g1; En611 a[3]; es::Flags<En611, uint8> f8; es::Flags<En611, uint64> f64; es::Flags<En611, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En611_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En612, ENUM, 2, CLASS, 64, En612_A = 0x11, En612_AB = 40, En612_Ba);
struct En612_Cls { uint64 g0; En612 m; uint8 g1; En612 a[3]; es::Flags<En612, uint8> f8; es::Flags<En612, uint64> f64; es::Flags<En612, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En612_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En613, ENUM, 2, CLASS, 64, En613_A = 0x11, En613_AB = 40, En613_Ba = 18446744073709551615ULL);
struct En613_Cls { uint64 g0; En613 m; uint8 g1; En613 a[3]; es::Flags<En613, uint8> f8; es::Flags<En613, uint64> f64; es::Flags<En613, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En613_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En614, ENUM, 2, CLASS, 64, En614_A = 0x11, En614_AB = 40, En614_Ba = 0x7fffffffffffffff);
struct En614_Cls { uint64 g0; En614 m; uint8 g1; En614 a[3]; es::Flags<En614, uint8> f8; es::Flags<En614, uint64> f64; es::Flags<En614, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En614_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En615, ENUM, 2, CLASS, 64, En615_A = 0x11, En615_AB = 40, En615_Ba = 077u);
struct En615_Cls { uint64 g0; En615 m; uint8 g1; En615 a[3]; es::Flags<En615, uint8> f8; es::Flags<En615, uint64> f64; es::Flags<En615, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En615_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En616, ENUM, 2, CLASS, 64, En616_A = 0x11, En616_AB = 0x3f, En616_Ba);
struct En616_Cls { uint64 g0; En616 m; uint8 g1; En616 a[3]; es::Flags<En616, uint8> f8; es::Flags<En616, uint64> f64; es::Flags<En616, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En616_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En617, ENUM, 2, CLASS, 64, En617_A = 0x11, En617_AB = 0x3f, En617_Ba = 18446744073709551615ULL);
struct En617_Cls { uint64 g0; En617 m; uint8 g1; En617 a[3]; es::Flags<En617, uint8> f8; es::Flags<En617, uint64> f64; es::Flags<En617, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En617_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En618, ENUM, 2, CLASS, 64, En618_A = 0x11, En618_AB = 0x3f, En618_Ba = 0x7fffffffffffffff);
struct En618_Cls { uint64 g0; En618 m; uint8 g1; En618 a[3]; es::Flags<En618, uint8> f8; es::Flags<En618, uint64> f64; es::Flags<En618, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En618_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En619, ENUM, 2, CLASS, 64, En619_A = 0x11, En619_AB = 0x3f, En619_Ba = 077u);
struct En619_Cls { uint64 g0; En619 m; uint8 g1; En619 a[3]; es::Flags<En619, uint8> f8; es::Flags<En619, uint64> f64; es::Flags<En619, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En619_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En620, ENUM, 2, CLASS, 64, En620_A = 0x11, En620_AB = 4611686018427387904, En620_Ba);
struct En620_Cls { uint64 g0; En620 m; uint8 g1; En620 a[3]; es::Flags<En620, uint8> f8; es::Flags<En620, uint64> f64; es::Flags<En620, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En620_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En621, ENUM, 2, CLASS, 64, En621_A = 0x11, En621_AB = 4611686018427387904, En621_Ba = 18446744073709551615ULL);
struct En621_Cls { uint64 g0; En621 m; uint8 g1; En621 a[3]; es::Flags<En621, uint8> f8; es::Flags<En621, uint64> f64; es::Flags<En621, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En621_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En622, ENUM, 2, CLASS, 64, En622_A = 0x11, En622_AB = 4611686018427387904, En622_Ba = 0x7fffffffffffffff);
struct En622_Cls { uint64 g0; En622 m; uint8 g1; En622 a[3]; es::Flags<En622, uint8> f8; es::Flags<En622, uint64> f64; es::Flags<En622, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En622_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En623, ENUM, 2, CLASS, 64, En623_A = 0x11, En623_AB = 4611686018427387904, En623_Ba = 077u);
struct En623_Cls { uint64 g0; En623 m; uint8 g1; En623 a[3]; es::Flags<En623, uint8> f8; es::Flags<En623, uint64> f64; es::Flags<En623, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En623_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En624, ENUM, 2, CLASS, 64, En624_A=1, En624_AB, En624_Ba);
struct En624_Cls { uint64 g0; En624 m; uint8 g1; En624 a[3]; es::Flags<En624, uint8> f8; es::Flags<En624, uint64> f64; es::Flags<En624, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En624_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En625, ENUM, 2, CLASS, 64, En625_A=1, En625_AB, En625_Ba = 18446744073709551615ULL);
struct En625_Cls { uint64 g0; En625 m; uint8 g1; En625 a[3]; es::Flags<En625, uint8> f8; es::Flags<En625, uint64> f64; es::Flags<En625, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En625_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En626, ENUM, 2, CLASS, 64, En626_A=1, En626_AB, En626_Ba = 0x7fffffffffffffff);
struct En626_Cls { uint64 g0; En626 m; uint8 g1; En626 a[3]; es::Flags<En626, uint8> f8; es::Flags<En626, uint64> f64; es::Flags<En626, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En626_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En627, ENUM, 2, CLASS, 64, En627_A=1, En627_AB, En627_Ba = 077u);
struct En627_Cls { uint64 g0; En627 m; uint8 g1; En627 a[3]; es::Flags<En627, uint8> f8; es::Flags<En627, uint64> f64; es::Flags<En627, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En627_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En628, ENUM, 2, CLASS, 64, En628_A=1, En628_AB = 40, En628_Ba);
struct En628_Cls { uint64 g0; En628 m; uint8 g1; En628 a[3]; es::Flags<En628, uint8> f8; es::Flags<En628, uint64> f64; es::Flags<En628, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En628_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En629, ENUM, 2, CLASS, 64, En629_A=1, En629_AB = 40, En629_Ba = 18446744073709551615ULL);
struct En629_Cls { uint64 g0; En629 m; uint8 g1; En629 a[3]; es::Flags<En629, uint8> f8; es::Flags<En629, uint64> f64; es::Flags<En629, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En629_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En630, ENUM, 2, CLASS, 64, En630_A=1, En630_AB = 40, En630_Ba = 0x7fffffffffffffff);
struct En630_Cls { uint64 g0; En630 m; uint8 g1; En630 a[3]; es::Flags<En630, uint8> f8; es::Flags<En630, uint64> f64; es::Flags<En630, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En630_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En631, ENUM, 2, CLASS, 64, En631_A=1, En631_AB = 40, En631_Ba = 077u);
struct En631_Cls { uint64 g0; En631 m; uint8 g1; En631 a[3]; es::Flags<En631, uint8> f8; es::Flags<En631, uint64> f64; es::Flags<En631, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En631_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En632, ENUM, 2, CLASS, 64, En632_A=1, En632_AB = 0x3f, En632_Ba);
struct En632_Cls { uint64 g0; En632 m; uint8 g1; En632 a[3]; es::Flags<En632, uint8> f8; es::Flags<En632, uint64> f64; es::Flags<En632, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En632_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En633, ENUM, 2, CLASS, 64, En633_A=1, En633_AB = 0x3f, En633_Ba = 18446744073709551615ULL);
struct En633_Cls { uint64 g0; En633 m; uint8 g1; En633 a[3]; es::Flags<En633, uint8> f8; es::Flags<En633, uint64> f64; es::Flags<En633, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En633_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En634, ENUM, 2, CLASS, 64, En634_A=1, En634_AB = 0x3f, En634_Ba = 0x7fffffffffffffff);
struct En634_Cls { uint64 g0; En634 m; uint8 g1; En634 a[3]; es::Flags<En634, uint8> f8; es::Flags<En634, uint64> f64; es::Flags<En634, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En634_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En635, ENUM, 2, CLASS, 64, En635_A=1, En635_AB = 0x3f, En635_Ba = 077u);
struct En635_Cls { uint64 g0; En635 m; uint8 g1; En635 a[3]; es::Flags<En635, uint8> f8; es::Flags<En635, uint64> f64; es::Flags<En635, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En635_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En636, ENUM, 2, CLASS, 64, En636_A=1, En636_AB = 4611686018427387904, En636_Ba);
struct En636_Cls { uint64 g0; En636 m; uint8 g1; En636 a[3]; es::Flags<En636, uint8> f8; es::Flags<En636, uint64> f64; es::Flags<En636, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En636_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En637, ENUM, 2, CLASS, 64, En637_A=1, En637_AB = 4611686018427387904, En637_Ba = 18446744073709551615ULL);
struct En637_Cls { uint64 g0; En637 m; uint8 g1; En637 a[3]; es::Flags<En637, uint8> f8; es::Flags<En637, uint64> f64; es::Flags<En637, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En637_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En638, ENUM, 2, CLASS, 64, En638_A=1, En638_AB = 4611686018427387904, En638_Ba = 0x7fffffffffffffff);
struct En638_Cls { uint64 g0; En638 m; uint8 g1; En638 a[3]; es::Flags<En638, uint8> f8; es::Flags<En638, uint64> f64; es::Flags<En638, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En638_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En639, ENUM, 2, CLASS, 64, En639_A=1, En639_AB = 4611686018427387904, En639_Ba = 077u);
struct En639_Cls { uint64 g0; En639 m; uint8 g1; En639 a[3]; es::Flags<En639, uint8> f8; es::Flags<En639, uint64> f64; es::Flags<En639, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En639_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En640, ENUM, 2, CLASS, 64, En640_A = 010, En640_AB, En640_Ba);
struct En640_Cls { uint64 g0; En640 m; uint8 g1; En640 a[3]; es::Flags<En640, uint8> f8; es::Flags<En640, uint64> f64; es::Flags<En640, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En640_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En641, ENUM, 2, CLASS, 64, En641_A = 010, En641_AB, En641_Ba = 18446744073709551615ULL);
struct En641_Cls { uint64 g0; En641 m; uint8 g1; En641 a[3]; es::Flags<En641, uint8> f8; es::Flags<En641, uint64> f64; es::Flags<En641, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En641_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En642, ENUM, 2, CLASS, 64, En642_A = 010, En642_AB, En642_Ba = 0x7fffffffffffffff);
struct En642_Cls { uint64 g0; En642 m; uint8 g1; En642 a[3]; es::Flags<En642, uint8> f8; es::Flags<En642, uint64> f64; es::Flags<En642, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En642_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En643, ENUM, 2, CLASS, 64, En643_A = 010, En643_AB, En643_Ba = 077u);
struct En643_Cls { uint64 g0; En643 m; uint8 g1; En643 a[3]; es::Flags<En643, uint8> f8; es::Flags<En643, uint64> f64; es::Flags<En643, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En643_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En644, ENUM, 2, CLASS, 64, En644_A = 010, En644_AB = 40, En644_Ba);
struct En644_Cls { uint64 g0; En644 m; uint8 g1; En644 a[3]; es::Flags<En644, uint8> f8; es::Flags<En644, uint64> f64; es::Flags<En644, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En644_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En645, ENUM, 2, CLASS, 64, En645_A = 010, En645_AB = 40, En645_Ba = 18446744073709551615ULL);
struct En645_Cls { uint64 g0; En645 m; uint8 g1; En645 a[3]; es::Flags<En645, uint8> f8; es::Flags<En645, uint64> f64; es::Flags<En645, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En645_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En646, ENUM, 2, CLASS, 64, En646_A = 010, En646_AB = 40, En646_Ba = 0x7fffffffffffffff);
struct En646_Cls { uint64 g0; En646 m; uint8 g1; En646 a[3]; es::Flags<En646, uint8> f8; es::Flags<En646, uint64> f64; es::Flags<En646, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En646_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En647, ENUM, 2, CLASS, 64, En647_A = 010, En647_AB = 40, En647_Ba = 077u);
struct En647_Cls { uint64 g0; En647 m; uint8 g1; En647 a[3]; es::Flags<En647, uint8> f8; es::Flags<En647, uint64> f64; es::Flags<En647, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En647_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En648, ENUM, 2, CLASS, 64, En648_A = 010, En648_AB = 0x3f, En648_Ba);
struct En648_Cls { uint64 g0; En648 m; uint8 g1; En648 a[3]; es::Flags<En648, uint8> f8; es::Flags<En648, uint64> f64; es::Flags<En648, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En648_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En649, ENUM, 2, CLASS, 64, En649_A = 010, En649_AB = 0x3f, En649_Ba = 18446744073709551615ULL);
struct En649_Cls { uint64 g0; En649 m; uint8 g1; En649 a[3]; es::Flags<En649, uint8> f8; es::Flags<En649, uint64> f64; es::Flags<En649, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En649_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En650, ENUM, 2, CLASS, 64, En650_A = 010, En650_AB = 0x3f, En650_Ba = 0x7fffffffffffffff);
struct En650_Cls { uint64 g0; En650 m; uint8 g1; En650 a[3]; es::Flags<En650, uint8> f8; es::Flags<En650, uint64> f64; es::Flags<En650, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En650_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En651, ENUM, 2, CLASS, 64, En651_A = 010, En651_AB = 0x3f, En651_Ba = 077u);
struct En651_Cls { uint64 g0; En651 m; uint8 g1; En651 a[3]; es::Flags<En651, uint8> f8; es::Flags<En651, uint64> f64; es::Flags<En651, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En651_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En652, ENUM, 2, CLASS, 64, En652_A = 010, En652_AB = 4611686018427387904, En652_Ba);
struct En652_Cls { uint64 g0; En652 m; uint8 g1; En652 a[3]; es::Flags<En652, uint8> f8; es::Flags<En652, uint64> f64; es::Flags<En652, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En652_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En653, ENUM, 2, CLASS, 64, En653_A = 010, En653_AB = 4611686018427387904, En653_Ba = 18446744073709551615ULL);
struct En653_Cls { uint64 g0; En653 m; uint8 g1; En653 a[3]; es::Flags<En653, uint8> f8; es::Flags<En653, uint64> f64; es::Flags<En653, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En653_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En654, ENUM, 2, CLASS, 64, En654_A = 010, En654_AB = 4611686018427387904, En654_Ba = 0x7fffffffffffffff);
struct En654_Cls { uint64 g0; En654 m; uint8 g1; En654 a[3]; es::Flags<En654, uint8> f8; es::Flags<En654, uint64> f64; es::Flags<En654, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En654_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En655, ENUM, 2, CLASS, 64, En655_A = 010, En655_AB = 4611686018427387904, En655_Ba = 077u);
struct En655_Cls { uint64 g0; En655 m; uint8 g1; En655 a[3]; es::Flags<En655, uint8> f8; es::Flags<En655, uint64> f64; es::Flags<En655, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En655_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En656, ENUM, 2, CLASS, 64, En656_A = 0X1f, En656_AB, En656_Ba);
struct En656_Cls { uint64 g0; En656 m; uint8 g1; En656 a[3]; es::Flags<En656, uint8> f8; es::Flags<En656, uint64> f64; es::Flags<En656, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En656_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En657, ENUM, 2, CLASS, 64, En657_A = 0X1f, En657_AB, En657_Ba = 18446744073709551615ULL);
struct En657_Cls { uint64 g0; En657 m; uint8 g1; En657 a[3]; es::Flags<En657, uint8> f8; es::Flags<En657, uint64> f64; es::Flags<En657, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En657_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En658, ENUM, 2, CLASS, 64, En658_A = 0X1f, En658_AB, En658_Ba = 0x7fffffffffffffff);
struct En658_Cls { uint64 g0; En658 m; uint8 g1; En658 a[3]; es::Flags<En658, uint8> f8; es::Flags<En658, uint64> f64; es::Flags<En658, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En658_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En659, ENUM, 2, CLASS, 64, En659_A = 0X1f, En659_AB, En659_Ba = 077u);
struct En659_Cls { uint64 g0; En659 m; uint8 g1; En659 a[3]; es::Flags<En659, uint8> f8; es::Flags<En659, uint64> f64; es::Flags<En659, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En659_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En660, ENUM, 2, CLASS, 64, En660_A = 0X1f, En660_AB = 40, En660_Ba);
struct En660_Cls { uint64 g0; En660 m; uint8 g1; En660 a[3]; es::Flags<En660, uint8> f8; es::Flags<En660, uint64> f64; es::Flags<En660, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En660_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En661, ENUM, 2, CLASS, 64, En661_A = 0X1f, En661_AB = 40, En661_Ba = 18446744073709551615ULL);
struct En661_Cls { uint64 g0; En661 m; uint8 g1; En661 a[3]; es::Flags<En661, uint8> f8; es::Flags<En661, uint64> f64; es::Flags<En661, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En661_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En662, ENUM, 2, CLASS, 64, En662_A = 0X1f, En662_AB = 40, En662_Ba = 0x7fffffffffffffff);
struct En662_Cls { uint64 g0; En662 m; uint8 g1; En662 a[3]; es::Flags<En662, uint8> f8; es::Flags<En662, uint64> f64; es::Flags<En662, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En662_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En663, ENUM, 2, CLASS, 64, En663_A = 0X1f, En663_AB = 40, En663_Ba = 077u);
struct En663_Cls { uint64 g0; En663 m; uint8 g1; En663 a[3]; es::Flags<En663, uint8> f8; es::Flags<En663, uint64> f64; es::Flags<En663, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En663_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En664, ENUM, 2, CLASS, 64, En664_A = 0X1f, En664_AB = 0x3f, En664_Ba);
struct En664_Cls { uint64 g0; En664 m; uint8 g1; En664 a[3]; es::Flags<En664, uint8> f8; es::Flags<En664, uint64> f64; es::Flags<En664, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En664_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En665, ENUM, 2, CLASS, 64, En665_A = 0X1f, En665_AB = 0x3f, En665_Ba = 18446744073709551615ULL);
struct En665_Cls { uint64 g0; En665 m; uint8 g1; En665 a[3]; es::Flags<En665, uint8> f8; es::Flags<En665, uint64> f64; es::Flags<En665, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En665_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En666, ENUM, 2, CLASS, 64, En666_A = 0X1f, En666_AB = 0x3f, En666_Ba = 0x7fffffffffffffff);
struct En666_Cls { uint64 g0; En666 m; uint8 g1; En666 a[3]; es::Flags<En666, uint8> f8; es::Flags<En666, uint64> f64; es::Flags<En666, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En666_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En667, ENUM, 2, CLASS, 64, En667_A = 0X1f, En667_AB = 0x3f, En667_Ba = 077u);
struct En667_Cls { uint64 g0; En667 m; uint8 g1; En667 a[3]; es::Flags<En667, uint8> f8; es::Flags<En667, uint64> f64; es::Flags<En667, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En667_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En668, ENUM, 2, CLASS, 64, En668_A = 0X1f, En668_AB = 4611686018427387904, En668_Ba);
struct En668_Cls { uint64 g0; En668 m; uint8 g1; En668 a[3]; es::Flags<En668, uint8> f8; es::Flags<En668, uint64> f64; es::Flags<En668, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En668_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En669, ENUM, 2, CLASS, 64, En669_A = 0X1f, En669_AB = 4611686018427387904, En669_Ba = 18446744073709551615ULL);
struct En669_Cls { uint64 g0; En669 m; uint8 g1; En669 a[3]; es::Flags<En669, uint8> f8; es::Flags<En669, uint64> f64; es::Flags<En669, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En669_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En670, ENUM, 2, CLASS, 64, En670_A = 0X1f, En670_AB = 4611686018427387904, En670_Ba = 0x7fffffffffffffff);
struct En670_Cls { uint64 g0; En670 m; uint8 g1; En670 a[3]; es::Flags<En670, uint8> f8; es::Flags<En670, uint64> f64; es::Flags<En670, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En670_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En671, ENUM, 2, CLASS, 64, En671_A = 0X1f, En671_AB = 4611686018427387904, En671_Ba = 077u);
struct En671_Cls { uint64 g0; En671 m; uint8 g1; En671 a[3]; es::Flags<En671, uint8> f8; es::Flags<En671, uint64> f64; es::Flags<En671, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En671_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En672, ENUM, 0, En672_M = -1, En672_Z, En672_P, En672_N = -2147483647, En672_H = -0x10, En672_I);
struct En672_Cls { uint64 g0; En672 m; uint8 g1; En672 a[3]; es::Flags<En672, uint8> f8; es::Flags<En672, uint64> f64; es::Flags<En672, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En672_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En673, ENUM, 0, En673_M = -2, En673_Z, En673_P, En673_Q);
struct En673_Cls { uint64 g0; En673 m; uint8 g1; En673 a[3]; es::Flags<En673, uint8> f8; es::Flags<En673, uint64> f64; es::Flags<En673, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En673_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En674, ENUM, 1, CLASS, En674_M = -1, En674_Z, En674_P, En674_N = -2147483647, En674_H = -0x10, En674_I);
struct En674_Cls { uint64 g0; En674 m; uint8 g1; En674 a[3]; es::Flags<En674, uint8> f8; es::Flags<En674, uint64> f64; es::Flags<En674, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En674_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En675, ENUM, 1, CLASS, En675_M = -2, En675_Z, En675_P, En675_Q);
struct En675_Cls { uint64 g0; En675 m; uint8 g1; En675 a[3]; es::Flags<En675, uint8> f8; es::Flags<En675, uint64> f64; es::Flags<En675, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En675_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En676, ENUM, 0, En676_A = 7, En676_B = 7, En676_C, En676_D = 2, En676_E, En676_F, En676_G = 2, En676_H = 0);
struct En676_Cls { uint64 g0; En676 m; uint8 g1; En676 a[3]; es::Flags<En676, uint8> f8; es::Flags<En676, uint64> f64; es::Flags<En676, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En676_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En677, ENUM, 0, En677_I0 = 0x0, En677_I1, En677_I2, En677_I3, En677_I4, En677_I5, En677_I6, En677_I7 = 7, En677_I8, En677_I9, En677_I10, En677_I11, En677_I12, En677_I13, En677_I14 = 0xe, En677_I15, En677_I16, En677_I17, En677_I18, En677_I19, En677_I20, En677_I21 = 21, En677_I22, En677_I23, En677_I24, En677_I25, En677_I26, En677_I27, En677_I28 = 0x1c, En677_I29, En677_I30, En677_I31, En677_I32, En677_I33, En677_I34, En677_I35 = 35, En677_I36, En677_I37, En677_I38, En677_I39, En677_I40, En677_I41, En677_I42 = 0x2a, En677_I43, En677_I44, En677_I45, En677_I46, En677_I47, En677_I48, En677_I49 = 49, En677_I50, En677_I51, En677_I52, En677_I53, En677_I54, En677_I55, En677_I56 = 0x38, En677_I57, En677_I58, En677_I59, En677_I60, En677_I61, En677_I62);
struct En677_Cls { uint64 g0; En677 m; uint8 g1; En677 a[3]; es::Flags<En677, uint8> f8; es::Flags<En677, uint64> f64; es::Flags<En677, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En677_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En678, ENUM, 0, En678_Only);
struct En678_Cls { uint64 g0; En678 m; uint8 g1; En678 a[3]; es::Flags<En678, uint8> f8; es::Flags<En678, uint64> f64; es::Flags<En678, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En678_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En679, ENUM, 0, En679_Only = 5);
struct En679_Cls { uint64 g0; En679 m; uint8 g1; En679 a[3]; es::Flags<En679, uint8> f8; es::Flags<En679, uint64> f64; es::Flags<En679, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En679_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En680, ENUM, 1, CLASS, En680_A = 7, En680_B = 7, En680_C, En680_D = 2, En680_E, En680_F, En680_G = 2, En680_H = 0);
struct En680_Cls { uint64 g0; En680 m; uint8 g1; En680 a[3]; es::Flags<En680, uint8> f8; es::Flags<En680, uint64> f64; es::Flags<En680, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En680_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En681, ENUM, 1, CLASS, En681_I0 = 0x0, En681_I1, En681_I2, En681_I3, En681_I4, En681_I5, En681_I6, En681_I7 = 7, En681_I8, En681_I9, En681_I10, En681_I11, En681_I12, En681_I13, En681_I14 = 0xe, En681_I15, En681_I16, En681_I17, En681_I18, En681_I19, En681_I20, En681_I21 = 21, En681_I22, En681_I23, En681_I24, En681_I25, En681_I26, En681_I27, En681_I28 = 0x1c, En681_I29, En681_I30, En681_I31, En681_I32, En681_I33, En681_I34, En681_I35 = 35, En681_I36, En681_I37, En681_I38, En681_I39, En681_I40, En681_I41, En681_I42 = 0x2a, En681_I43, En681_I44, En681_I45, En681_I46, En681_I47, En681_I48, En681_I49 = 49, En681_I50, En681_I51, En681_I52, En681_I53, En681_I54, En681_I55, En681_I56 = 0x38, En681_I57, En681_I58, En681_I59, En681_I60, En681_I61, En681_I62);
struct En681_Cls { uint64 g0; En681 m; uint8 g1; En681 a[3]; es::Flags<En681, uint8> f8; es::Flags<En681, uint64> f64; es::Flags<En681, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En681_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En682, ENUM, 1, CLASS, En682_Only);
struct En682_Cls { uint64 g0; En682 m; uint8 g1; En682 a[3]; es::Flags<En682, uint8> f8; es::Flags<En682, uint64> f64; es::Flags<En682, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En682_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En683, ENUM, 1, CLASS, En683_Only = 5);
struct En683_Cls { uint64 g0; En683 m; uint8 g1; En683 a[3]; es::Flags<En683, uint8> f8; es::Flags<En683, uint64> f64; es::Flags<En683, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En683_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En684, ENUM, 1, 8, En684_A = 7, En684_B = 7, En684_C, En684_D = 2, En684_E, En684_F, En684_G = 2, En684_H = 0);
struct En684_Cls { uint64 g0; En684 m; uint8 g1; En684 a[3]; es::Flags<En684, uint8> f8; es::Flags<En684, uint64> f64; es::Flags<En684, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En684_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En685, ENUM, 1, 8, En685_I0 = 0x0, En685_I1, En685_I2, En685_I3, En685_I4, En685_I5, En685_I6, En685_I7 = 7, En685_I8, En685_I9, En685_I10, En685_I11, En685_I12, En685_I13, En685_I14 = 0xe, En685_I15, En685_I16, En685_I17, En685_I18, En685_I19, En685_I20, En685_I21 = 21, En685_I22, En685_I23, En685_I24, En685_I25, En685_I26, En685_I27, En685_I28 = 0x1c, En685_I29, En685_I30, En685_I31, En685_I32, En685_I33, En685_I34, En685_I35 = 35, En685_I36, En685_I37, En685_I38, En685_I39, En685_I40, En685_I41, En685_I42 = 0x2a, En685_I43, En685_I44, En685_I45, En685_I46, En685_I47, En685_I48, En685_I49 = 49, En685_I50, En685_I51, En685_I52, En685_I53, En685_I54, En685_I55, En685_I56 = 0x38, En685_I57, En685_I58, En685_I59, En685_I60, En685_I61, En685_I62);
struct En685_Cls { uint64 g0; En685 m; uint8 g1; En685 a[3]; es::Flags<En685, uint8> f8; es::Flags<En685, uint64> f64; es::Flags<En685, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En685_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En686, ENUM, 1, 8, En686_Only);
struct En686_Cls { uint64 g0; En686 m; uint8 g1; En686 a[3]; es::Flags<En686, uint8> f8; es::Flags<En686, uint64> f64; es::Flags<En686, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En686_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En687, ENUM, 1, 8, En687_Only = 5);
struct En687_Cls { uint64 g0; En687 m; uint8 g1; En687 a[3]; es::Flags<En687, uint8> f8; es::Flags<En687, uint64> f64; es::Flags<En687, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En687_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En688, ENUM, 2, CLASS, 8, En688_A = 7, En688_B = 7, En688_C, En688_D = 2, En688_E, En688_F, En688_G = 2, En688_H = 0);
struct En688_Cls { uint64 g0; En688 m; uint8 g1; En688 a[3]; es::Flags<En688, uint8> f8; es::Flags<En688, uint64> f64; es::Flags<En688, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En688_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En689, ENUM, 2, CLASS, 8, En689_I0 = 0x0, En689_I1, En689_I2, En689_I3, En689_I4, En689_I5, En689_I6, En689_I7 = 7, En689_I8, En689_I9, En689_I10, En689_I11, En689_I12, En689_I13, En689_I14 = 0xe, En689_I15, En689_I16, En689_I17, En689_I18, En689_I19, En689_I20, En689_I21 = 21, En689_I22, En689_I23, En689_I24, En689_I25, En689_I26, En689_I27, En689_I28 = 0x1c, En689_I29, En689_I30, En689_I31, En689_I32, En689_I33, En689_I34, En689_I35 = 35, En689_I36, En689_I37, En689_I38, En689_I39, En689_I40, En689_I41, En689_I42 = 0x2a, En689_I43, En689_I44, En689_I45, En689_I46, En689_I47, En689_I48, En689_I49 = 49, En689_I50, En689_I51, En689_I52, En689_I53, En689_I54, En689_I55, En689_I56 = 0x38, En689_I57, En689_I58, En689_I59, En689_I60, En689_I61, En689_I62);
struct En689_Cls { uint64 g0; En689 m; uint8 g1; En689 a[3]; es::Flags<En689, uint8> f8; es::Flags<En689, uint64> f64; es::Flags<En689, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En689_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En690, ENUM, 2, CLASS, 8, En690_Only);
struct En690_Cls { uint64 g0; En690 m; uint8 g1; En690 a[3]; es::Flags<En690, uint8> f8; es::Flags<En690, uint64> f64; es::Flags<En690, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En690_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En691, ENUM, 2, CLASS, 8, En691_Only = 5);
struct En691_Cls { uint64 g0; En691 m; uint8 g1; En691 a[3]; es::Flags<En691, uint8> f8; es::Flags<En691, uint64> f64; es::Flags<En691, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En691_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En692, ENUM, 2, CLASS, 16, En692_A = 7, En692_B = 7, En692_C, En692_D = 2, En692_E, En692_F, En692_G = 2, En692_H = 0);
struct En692_Cls { uint64 g0; En692 m; uint8 g1; En692 a[3]; es::Flags<En692, uint8> f8; es::Flags<En692, uint64> f64; es::Flags<En692, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En692_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En693, ENUM, 2, CLASS, 16, En693_I0 = 0x0, En693_I1, En693_I2, En693_I3, En693_I4, En693_I5, En693_I6, En693_I7 = 7, En693_I8, En693_I9, En693_I10, En693_I11, En693_I12, En693_I13, En693_I14 = 0xe, En693_I15, En693_I16, En693_I17, En693_I18, En693_I19, En693_I20, En693_I21 = 21, En693_I22, En693_I23, En693_I24, En693_I25, En693_I26, En693_I27, En693_I28 = 0x1c, En693_I29, En693_I30, En693_I31, En693_I32, En693_I33, En693_I34, En693_I35 = 35, En693_I36, En693_I37, En693_I38, En693_I39, En693_I40, En693_I41, En693_I42 = 0x2a, En693_I43, En693_I44, En693_I45, En693_I46, En693_I47, En693_I48, En693_I49 = 49, En693_I50, En693_I51, En693_I52, En693_I53, En693_I54, En693_I55, En693_I56 = 0x38, En693_I57, En693_I58, En693_I59, En693_I60, En693_I61, En693_I62);
struct En693_Cls { uint64 g0; En693 m; uint8 g1; En693 a[3]; es::Flags<En693, uint8> f8; es::Flags<En693, uint64> f64; es::Flags<En693, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En693_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En694, ENUM, 2, CLASS, 16, En694_Only);
struct En694_Cls { uint64 g0; En694 m; uint8 g1; En694 a[3]; es::Flags<En694, uint8> f8; es::Flags<En694, uint64> f64; es::Flags<En694, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En694_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En695, ENUM, 2, CLASS, 16, En695_Only = 5);
struct En695_Cls { uint64 g0; En695 m; uint8 g1; En695 a[3]; es::Flags<En695, uint8> f8; es::Flags<En695, uint64> f64; es::Flags<En695, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En695_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En696, ENUM, 2, 32, CLASS, En696_A = 7, En696_B = 7, En696_C, En696_D = 2, En696_E, En696_F, En696_G = 2, En696_H = 0);
struct En696_Cls { uint64 g0; En696 m; uint8 g1; En696 a[3]; es::Flags<En696, uint8> f8; es::Flags<En696, uint64> f64; es::Flags<En696, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En696_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En697, ENUM, 2, 32, CLASS, En697_I0 = 0x0, En697_I1, En697_I2, En697_I3, En697_I4, En697_I5, En697_I6, En697_I7 = 7, En697_I8, En697_I9, En697_I10, En697_I11, En697_I12, En697_I13, En697_I14 = 0xe, En697_I15, En697_I16, En697_I17, En697_I18, En697_I19, En697_I20, En697_I21 = 21, En697_I22, En697_I23, En697_I24, En697_I25, En697_I26, En697_I27, En697_I28 = 0x1c, En697_I29, En697_I30, En697_I31, En697_I32, En697_I33, En697_I34, En697_I35 = 35, En697_I36, En697_I37, En697_I38, En697_I39, En697_I40, En697_I41, En697_I42 = 0x2a, En697_I43, En697_I44, En697_I45, En697_I46, En697_I47, En697_I48, En697_I49 = 49, En697_I50, En697_I51, En697_I52, En697_I53, En697_I54, En697_I55, En697_I56 = 0x38, En697_I57, En697_I58, En697_I59, En697_I60, En697_I61, En697_I62);
struct En697_Cls { uint64 g0; En697 m; uint8 g1; En697 a[3]; es::Flags<En697, uint8> f8; es::Flags<En697, uint64> f64; es::Flags<En697, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En697_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En698, ENUM, 2, 32, CLASS, En698_Only);
struct En698_Cls { uint64 g0; En698 m; uint8 g1; En698 a[3]; es::Flags<En698, uint8> f8; es::Flags<En698, uint64> f64; es::Flags<En698, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En698_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En699, ENUM, 2, 32, CLASS, En699_Only = 5);
struct En699_Cls { uint64 g0; En699 m; uint8 g1; En699 a[3]; es::Flags<En699, uint8> f8; es::Flags<En699, uint64> f64; es::Flags<En699, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En699_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En700, ENUM, 2, CLASS, 64, En700_A = 7, En700_B = 7, En700_C, En700_D = 2, En700_E, En700_F, En700_G = 2, En700_H = 0);
struct En700_Cls { uint64 g0; En700 m; uint8 g1; En700 a[3]; es::Flags<En700, uint8> f8; es::Flags<En700, uint64> f64; es::Flags<En700, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En700_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En701, ENUM, 2, CLASS, 64, En701_I0 = 0x0, En701_I1, En701_I2, En701_I3, En701_I4, En701_I5, En701_I6, En701_I7 = 7, En701_I8, En701_I9, En701_I10, En701_I11, En701_I12, En701_I13, En701_I14 = 0xe, En701_I15, En701_I16, En701_I17, En701_I18, En701_I19, En701_I20, En701_I21 = 21, En701_I22, En701_I23, En701_I24, En701_I25, En701_I26, En701_I27, En701_I28 = 0x1c, En701_I29, En701_I30, En701_I31, En701_I32, En701_I33, En701_I34, En701_I35 = 35, En701_I36, En701_I37, En701_I38, En701_I39, En701_I40, En701_I41, En701_I42 = 0x2a, En701_I43, En701_I44, En701_I45, En701_I46, En701_I47, En701_I48, En701_I49 = 49, En701_I50, En701_I51, En701_I52, En701_I53, En701_I54, En701_I55, En701_I56 = 0x38, En701_I57, En701_I58, En701_I59, En701_I60, En701_I61, En701_I62);
struct En701_Cls { uint64 g0; En701 m; uint8 g1; En701 a[3]; es::Flags<En701, uint8> f8; es::Flags<En701, uint64> f64; es::Flags<En701, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En701_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En702, ENUM, 2, CLASS, 64, En702_Only);
struct En702_Cls { uint64 g0; En702 m; uint8 g1; En702 a[3]; es::Flags<En702, uint8> f8; es::Flags<En702, uint64> f64; es::Flags<En702, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En702_Cls, 1, VARNAMES, m, a, f8, f64, f16);
REFLECTOR_CREATE(En703, ENUM, 2, CLASS, 64, En703_Only = 5);
struct En703_Cls { uint64 g0; En703 m; uint8 g1; En703 a[3]; es::Flags<En703, uint8> f8; es::Flags<En703, uint64> f64; es::Flags<En703, uint16> f16[2]; uint32 g2; };
REFLECTOR_CREATE(En703_Cls, 1, VARNAMES, m, a, f8, f64, f16);
#define ALL_ENUMS(X) X(En0) X(En1) X(En2) X(En3) X(En4) X(En5) X(En6) X(En7) X(En8) X(En9) X(En10) X(En11) X(En12) X(En13) X(En14) X(En15) X(En16) X(En17) X(En18) X(En19) X(En20) X(En21) X(En22) X(En23) X(En24) X(En25) X(En26) X(En27) X(En28) X(En29) X(En30) X(En31) X(En32) X(En33) X(En34) X(En35) X(En36) X(En37) X(En38) X(En39) X(En40) X(En41) X(En42) X(En43) X(En44) X(En45) X(En46) X(En47) X(En48) X(En49) X(En50) X(En51) X(En52) X(En53) X(En54) X(En55) X(En56) X(En57) X(En58) X(En59) X(En60) X(En61) X(En62) X(En63) X(En64) X(En65) X(En66) X(En67) X(En68) X(En69) X(En70) X(En71) X(En72) X(En73) X(En74) X(En75) X(En76) X(En77) X(En78) X(En79) X(En80) X(En81) X(En82) X(En83) X(En84) X(En85) X(En86) X(En87) X(En88) X(En89) X(En90) X(En91) X(En92) X(En93) X(En94) X(En95) X(En96) X(En97) X(En98) X(En99) X(En100) X(En101) X(En102) X(En103) X(En104) X(En105) X(En106) X(En107) X(En108) X(En109) X(En110) X(En111) X(En112) X(En113) X(En114) X(En115) X(En116) X(En117) X(En118) X(En119) X(En120) X(En121) X(En122) X(En123) X(En124) X(En125) X(En126) X(En127) X(En128) X(En129) X(En130) X(En131) X(En132) X(En133) X(En134) X(En135) X(En136) X(En137) X(En138) X(En139) X(En140) X(En141) X(En142) X(En143) X(En144) X(En145) X(En146) X(En147) X(En148) X(En149) X(En150) X(En151) X(En152) X(En153) X(En154) X(En155) X(En156) X(En157) X(En158) X(En159) X(En160) X(En161) X(En162) X(En163) X(En164) X(En165) X(En166) X(En167) X(En168) X(En169) X(En170) X(En171) X(En172) X(En173) X(En174) X(En175) X(En176) X(En177) X(En178) X(En179) X(En180) X(En181) X(En182) X(En183) X(En184) X(En185) X(En186) X(En187) X(En188) X(En189) X(En190) X(En191) X(En192) X(En193) X(En194) X(En195) X(En196) X(En197) X(En198) X(En199) X(En200) X(En201) X(En202) X(En203) X(En204) X(En205) X(En206) X(En207) X(En208) X(En209) X(En210) X(En211) X(En212) X(En213) X(En214) X(En215) X(En216) X(En217) X(En218) X(En219) X(En220) X(En221) X(En222) X(En223) X(En224) X(En225) X(En226) X(En227) X(En228) X(En229) X(En230) X(En231) X(En232) X(En233) X(En234) X(En235) X(En236) X(En237) X(En238) X(En239) X(En240) X(En241) X(En242) X(En243) X(En244) X(En245) X(En246) X(En247) X(En248) X(En249) X(En250) X(En251) X(En252) X(En253) X(En254) X(En255) X(En256) X(En257) X(En258) X(En259) X(En260) X(En261) X(En262) X(En263) X(En264) X(En265) X(En266) X(En267) X(En268) X(En269) X(En270) X(En271) X(En272) X(En273) X(En274) X(En275) X(En276) X(En277) X(En278) X(En279) X(En280) X(En281) X(En282) X(En283) X(En284) X(En285) X(En286) X(En287) X(En288) X(En289) X(En290) X(En291) X(En292) X(En293) X(En294) X(En295) X(En296) X(En297) X(En298) X(En299) X(En300) X(En301) X(En302) X(En303) X(En304) X(En305) X(En306) X(En307) X(En308) X(En309) X(En310) X(En311) X(En312) X(En313) X(En314) X(En315) X(En316) X(En317) X(En318) X(En319) X(En320) X(En321) X(En322) X(En323) X(En324) X(En325) X(En326) X(En327) X(En328) X(En329) X(En330) X(En331) X(En332) X(En333) X(En334) X(En335) X(En336) X(En337) X(En338) X(En339) X(En340) X(En341) X(En342) X(En343) X(En344) X(En345) X(En346) X(En347) X(En348) X(En349) X(En350) X(En351) X(En352) X(En353) X(En354) X(En355) X(En356) X(En357) X(En358) X(En359) X(En360) X(En361) X(En362) X(En363) X(En364) X(En365) X(En366) X(En367) X(En368) X(En369) X(En370) X(En371) X(En372) X(En373) X(En374) X(En375) X(En376) X(En377) X(En378) X(En379) X(En380) X(En381) X(En382) X(En383) X(En384) X(En385) X(En386) X(En387) X(En388) X(En389) X(En390) X(En391) X(En392) X(En393) X(En394) X(En395) X(En396) X(En397) X(En398) X(En399) X(En400) X(En401) X(En402) X(En403) X(En404) X(En405) X(En406) X(En407) X(En408) X(En409) X(En410) X(En411) X(En412) X(En413) X(En414) X(En415) X(En416) X(En417) X(En418) X(En419) X(En420) X(En421) X(En422) X(En423) X(En424) X(En425) X(En426) X(En427) X(En428) X(En429) X(En430) X(En431) X(En432) X(En433) X(En434) X(En435) X(En436) X(En437) X(En438) X(En439) X(En440) X(En441) X(En442) X(En443) X(En444) X(En445) X(En446) X(En447) X(En448) X(En449) X(En450) X(En451) X(En452) X(En453) X(En454) X(En455) X(En456) X(En457) X(En458) X(En459) X(En460) X(En461) X(En462) X(En463) X(En464) X(En465) X(En466) X(En467) X(En468) X(En469) X(En470) X(En471) X(En472) X(En473) X(En474) X(En475) X(En476) X(En477) X(En478) X(En479) X(En480) X(En481) X(En482) X(En483) X(En484) X(En485) X(En486) X(En487) X(En488) X(En489) X(En490) X(En491) X(En492) X(En493) X(En494) X(En495) X(En496) X(En497) X(En498) X(En499) X(En500) X(En501) X(En502) X(En503) X(En504) X(En505) X(En506) X(En507) X(En508) X(En509) X(En510) X(En511) X(En512) X(En513) X(En514) X(En515) X(En516) X(En517) X(En518) X(En519) X(En520) X(En521) X(En522) X(En523) X(En524) X(En525) X(En526) X(En527) X(En528) X(En529) X(En530) X(En531) X(En532) X(En533) X(En534) X(En535) X(En536) X(En537) X(En538) X(En539) X(En540) X(En541) X(En542) X(En543) X(En544) X(En545) X(En546) X(En547) X(En548) X(En549) X(En550) X(En551) X(En552) X(En553) X(En554) X(En555) X(En556) X(En557) X(En558) X(En559) X(En560) X(En561) X(En562) X(En563) X(En564) X(En565) X(En566) X(En567) X(En568) X(En569) X(En570) X(En571) X(En572) X(En573) X(En574) X(En575) X(En576) X(En577) X(En578) X(En579) X(En580) X(En581) X(En582) X(En583) X(En584) X(En585) X(En586) X(En587) X(En588) X(En589) X(En590) X(En591) X(En592) X(En593) X(En594) X(En595) X(En596) X(En597) X(En598) X(En599) X(En600) X(En601) X(En602) X(En603) X(En604) X(En605) X(En606) X(En607) X(En608) X(En609) X(En610) X(En611) X(En612) X(En613) X(En614) X(En615) X(En616) X(En617) X(En618) X(En619) X(En620) X(En621) X(En622) X(En623) X(En624) X(En625) X(En626) X(En627) X(En628) X(En629) X(En630) X(En631) X(En632) X(En633) X(En634) X(En635) X(En636) X(En637) X(En638) X(En639) X(En640) X(En641) X(En642) X(En643) X(En644) X(En645) X(En646) X(En647) X(En648) X(En649) X(En650) X(En651) X(En652) X(En653) X(En654) X(En655) X(En656) X(En657) X(En658) X(En659) X(En660) X(En661) X(En662) X(En663) X(En664) X(En665) X(En666) X(En667) X(En668) X(En669) X(En670) X(En671) X(En672) X(En673) X(En674) X(En675) X(En676) X(En677) X(En678) X(En679) X(En680) X(En681) X(En682) X(En683) X(En684) X(En685) X(En686) X(En687) X(En688) X(En689) X(En690) X(En691) X(En692) X(En693) X(En694) X(En695) X(En696) X(En697) X(En698) X(En699) X(En700) X(En701) X(En702) X(En703)
template <> struct EnumOf<En0> { typedef En0_Cls C; static const char *name() { return "En0"; } static std::vector<EV> get() { return {{"En0_A", uint64_t(En0::En0_A)}, {"En0_AB", uint64_t(En0::En0_AB)}, {"En0_Ba", uint64_t(En0::En0_Ba)}}; } };
template <> struct EnumOf<En1> { typedef En1_Cls C; static const char *name() { return "En1"; } static std::vector<EV> get() { return {{"En1_A", uint64_t(En1::En1_A)}, {"En1_AB", uint64_t(En1::En1_AB)}, {"En1_Ba", uint64_t(En1::En1_Ba)}}; } };
template <> struct EnumOf<En2> { typedef En2_Cls C; static const char *name() { return "En2"; } static std::vector<EV> get() { return {{"En2_A", uint64_t(En2::En2_A)}, {"En2_AB", uint64_t(En2::En2_AB)}, {"En2_Ba", uint64_t(En2::En2_Ba)}}; } };
template <> struct EnumOf<En3> { typedef En3_Cls C; static const char *name() { return "En3"; } static std::vector<EV> get() { return {{"En3_A", uint64_t(En3::En3_A)}, {"En3_AB", uint64_t(En3::En3_AB)}, {"En3_Ba", uint64_t(En3::En3_Ba)}}; } };
template <> struct EnumOf<En4> { typedef En4_Cls C; static const char *name() { return "En4"; } static std::vector<EV> get() { return {{"En4_A", uint64_t(En4::En4_A)}, {"En4_AB", uint64_t(En4::En4_AB)}, {"En4_Ba", uint64_t(En4::En4_Ba)}}; } };
template <> struct EnumOf<En5> { typedef En5_Cls C; static const char *name() { return "En5"; } static std::vector<EV> get() { return {{"En5_A", uint64_t(En5::En5_A)}, {"En5_AB", uint64_t(En5::En5_AB)}, {"En5_Ba", uint64_t(En5::En5_Ba)}}; } };
template <> struct EnumOf<En6> { typedef En6_Cls C; static const char *name() { return "En6"; } static std::vector<EV> get() { return {{"En6_A", uint64_t(En6::En6_A)}, {"En6_AB", uint64_t(En6::En6_AB)}, {"En6_Ba", uint64_t(En6::En6_Ba)}}; } };
template <> struct EnumOf<En7> { typedef En7_Cls C; static const char *name() { return "En7"; } static std::vector<EV> get() { return {{"En7_A", uint64_t(En7::En7_A)}, {"En7_AB", uint64_t(En7::En7_AB)}, {"En7_Ba", uint64_t(En7::En7_Ba)}}; } };
template <> struct EnumOf<En8> { typedef En8_Cls C; static const char *name() { return "En8"; } static std::vector<EV> get() { return {{"En8_A", uint64_t(En8::En8_A)}, {"En8_AB", uint64_t(En8::En8_AB)}, {"En8_Ba", uint64_t(En8::En8_Ba)}}; } };
template <> struct EnumOf<En9> { typedef En9_Cls C; static const char *name() { return "En9"; } static std::vector<EV> get() { return {{"En9_A", uint64_t(En9::En9_A)}, {"En9_AB", uint64_t(En9::En9_AB)}, {"En9_Ba", uint64_t(En9::En9_Ba)}}; } };
template <> struct EnumOf<En10> { typedef En10_Cls C; static const char *name() { return "En10"; } static std::vector<EV> get() { return {{"En10_A", uint64_t(En10::En10_A)}, {"En10_AB", uint64_t(En10::En10_AB)}, {"En10_Ba", uint64_t(En10::En10_Ba)}}; } };
template <> struct EnumOf<En11> { typedef En11_Cls C; static const char *name() { return "En11"; } static std::vector<EV> get() { return {{"En11_A", uint64_t(En11::En11_A)}, {"En11_AB", uint64_t(En11::En11_AB)}, {"En11_Ba", uint64_t(En11::En11_Ba)}}; } };
template <> struct EnumOf<En12> { typedef En12_Cls C; static const char *name() { return "En12"; } static std::vector<EV> get() { return {{"En12_A", uint64_t(En12::En12_A)}, {"En12_AB", uint64_t(En12::En12_AB)}, {"En12_Ba", uint64_t(En12::En12_Ba)}}; } };
template <> struct EnumOf<En13> { typedef En13_Cls C; static const char *name() { return "En13"; } static std::vector<EV> get() { return {{"En13_A", uint64_t(En13::En13_A)}, {"En13_AB", uint64_t(En13::En13_AB)}, {"En13_Ba", uint64_t(En13::En13_Ba)}}; } };
template <> struct EnumOf<En14> { typedef En14_Cls C; static const char *name() { return "En14"; } static std::vector<EV> get() { return {{"En14_A", uint64_t(En14::En14_A)}, {"En14_AB", uint64_t(En14::En14_AB)}, {"En14_Ba", uint64_t(En14::En14_Ba)}}; } };
template <> struct EnumOf<En15> { typedef En15_Cls C; static const char *name() { return "En15"; } static std::vector<EV> get() { return {{"En15_A", uint64_t(En15::En15_A)}, {"En15_AB", uint64_t(En15::En15_AB)}, {"En15_Ba", uint64_t(En15::En15_Ba)}}; } };
template <> struct EnumOf<En16> { typedef En16_Cls C; static const char *name() { return "En16"; } static std::vector<EV> get() { return {{"En16_A", uint64_t(En16::En16_A)}, {"En16_AB", uint64_t(En16::En16_AB)}, {"En16_Ba", uint64_t(En16::En16_Ba)}}; } };
template <> struct EnumOf<En17> { typedef En17_Cls C; static const char *name() { return "En17"; } static std::vector<EV> get() { return {{"En17_A", uint64_t(En17::En17_A)}, {"En17_AB", uint64_t(En17::En17_AB)}, {"En17_Ba", uint64_t(En17::En17_Ba)}}; } };
template <> struct EnumOf<En18> { typedef En18_Cls C; static const char *name() { return "En18"; } static std::vector<EV> get() { return {{"En18_A", uint64_t(En18::En18_A)}, {"En18_AB", uint64_t(En18::En18_AB)}, {"En18_Ba", uint64_t(En18::En18_Ba)}}; } };
template <> struct EnumOf<En19> { typedef En19_Cls C; static const char *name() { return "En19"; } static std::vector<EV> get() { return {{"En19_A", uint64_t(En19::En19_A)}, {"En19_AB", uint64_t(En19::En19_AB)}, {"En19_Ba", uint64_t(En19::En19_Ba)}}; } };
template <> struct EnumOf<En20> { typedef En20_Cls C; static const char *name() { return "En20"; } static std::vector<EV> get() { return {{"En20_A", uint64_t(En20::En20_A)}, {"En20_AB", uint64_t(En20::En20_AB)}, {"En20_Ba", uint64_t(En20::En20_Ba)}}; } };
template <> struct EnumOf<En21> { typedef En21_Cls C; static const char *name() { return "En21"; } static std::vector<EV> get() { return {{"En21_A", uint64_t(En21::En21_A)}, {"En21_AB", uint64_t(En21::En21_AB)}, {"En21_Ba", uint64_t(En21::En21_Ba)}}; } };
template <> struct EnumOf<En22> { typedef En22_Cls C; static const char *name() { return "En22"; } static std::vector<EV> get() { return {{"En22_A", uint64_t(En22::En22_A)}, {"En22_AB", uint64_t(En22::En22_AB)}, {"En22_Ba", uint64_t(En22::En22_Ba)}}; } };
template <> struct EnumOf<En23> { typedef En23_Cls C; static const char *name() { return "En23"; } static std::vector<EV> get() { return {{"En23_A", uint64_t(En23::En23_A)}, {"En23_AB", uint64_t(En23::En23_AB)}, {"En23_Ba", uint64_t(En23::En23_Ba)}}; } };
template <> struct EnumOf<En24> { typedef En24_Cls C; static const char *name() { return "En24"; } static std::vector<EV> get() { return {{"En24_A", uint64_t(En24::En24_A)}, {"En24_AB", uint64_t(En24::En24_AB)}, {"En24_Ba", uint64_t(En24::En24_Ba)}}; } };
template <> struct EnumOf<En25> { typedef En25_Cls C; static const char *name() { return "En25"; } static std::vector<EV> get() { return {{"En25_A", uint64_t(En25::En25_A)}, {"En25_AB", uint64_t(En25::En25_AB)}, {"En25_Ba", uint64_t(En25::En25_Ba)}}; } };
template <> struct EnumOf<En26> { typedef En26_Cls C; static const char *name() { return "En26"; } static std::vector<EV> get() { return {{"En26_A", uint64_t(En26::En26_A)}, {"En26_AB", uint64_t(En26::En26_AB)}, {"En26_Ba", uint64_t(En26::En26_Ba)}}; } };
template <> struct EnumOf<En27> { typedef En27_Cls C; static const char *name() { return "En27"; } static std::vector<EV> get() { return {{"En27_A", uint64_t(En27::En27_A)}, {"En27_AB", uint64_t(En27::En27_AB)}, {"En27_Ba", uint64_t(En27::En27_Ba)}}; } };
template <> struct EnumOf<En28> { typedef En28_Cls C; static const char *name() { return "En28"; } static std::vector<EV> get() { return {{"En28_A", uint64_t(En28::En28_A)}, {"En28_AB", uint64_t(En28::En28_AB)}, {"En28_Ba", uint64_t(En28::En28_Ba)}}; } };
template <> struct EnumOf<En29> { typedef En29_Cls C; static const char *name() { return "En29"; } static std::vector<EV> get() { return {{"En29_A", uint64_t(En29::En29_A)}, {"En29_AB", uint64_t(En29::En29_AB)}, {"En29_Ba", uint64_t(En29::En29_Ba)}}; } };
template <> struct EnumOf<En30> { typedef En30_Cls C; static const char *name() { return "En30"; } static std::vector<EV> get() { return {{"En30_A", uint64_t(En30::En30_A)}, {"En30_AB", uint64_t(En30::En30_AB)}, {"En30_Ba", uint64_t(En30::En30_Ba)}}; } };
template <> struct EnumOf<En31> { typedef En31_Cls C; static const char *name() { return "En31"; } static std::vector<EV> get() { return {{"En31_A", uint64_t(En31::En31_A)}, {"En31_AB", uint64_t(En31::En31_AB)}, {"En31_Ba", uint64_t(En31::En31_Ba)}}; } };
template <> struct EnumOf<En32> { typedef En32_Cls C; static const char *name() { return "En32"; } static std::vector<EV> get() { return {{"En32_A", uint64_t(En32::En32_A)}, {"En32_AB", uint64_t(En32::En32_AB)}, {"En32_Ba", uint64_t(En32::En32_Ba)}}; } };
template <> struct EnumOf<En33> { typedef En33_Cls C; static const char *name() { return "En33"; } static std::vector<EV> get() { return {{"En33_A", uint64_t(En33::En33_A)}, {"En33_AB", uint64_t(En33::En33_AB)}, {"En33_Ba", uint64_t(En33::En33_Ba)}}; } };
template <> struct EnumOf<En34> { typedef En34_Cls C; static const char *name() { return "En34"; } static std::vector<EV> get() { return {{"En34_A", uint64_t(En34::En34_A)}, {"En34_AB", uint64_t(En34::En34_AB)}, {"En34_Ba", uint64_t(En34::En34_Ba)}}; } };
template <> struct EnumOf<En35> { typedef En35_Cls C; static const char *name() { return "En35"; } static std::vector<EV> get() { return {{"En35_A", uint64_t(En35::En35_A)}, {"En35_AB", uint64_t(En35::En35_AB)}, {"En35_Ba", uint64_t(En35::En35_Ba)}}; } };
template <> struct EnumOf<En36> { typedef En36_Cls C; static const char *name() { return "En36"; } static std::vector<EV> get() { return {{"En36_A", uint64_t(En36::En36_A)}, {"En36_AB", uint64_t(En36::En36_AB)}, {"En36_Ba", uint64_t(En36::En36_Ba)}}; } };
template <> struct EnumOf<En37> { typedef En37_Cls C; static const char *name() { return "En37"; } static std::vector<EV> get() { return {{"En37_A", uint64_t(En37::En37_A)}, {"En37_AB", uint64_t(En37::En37_AB)}, {"En37_Ba", uint64_t(En37::En37_Ba)}}; } };
template <> struct EnumOf<En38> { typedef En38_Cls C; static const char *name() { return "En38"; } static std::vector<EV> get() { return {{"En38_A", uint64_t(En38::En38_A)}, {"En38_AB", uint64_t(En38::En38_AB)}, {"En38_Ba", uint64_t(En38::En38_Ba)}}; } };
template <> struct EnumOf<En39> { typedef En39_Cls C; static const char *name() { return "En39"; } static std::vector<EV> get() { return {{"En39_A", uint64_t(En39::En39_A)}, {"En39_AB", uint64_t(En39::En39_AB)}, {"En39_Ba", uint64_t(En39::En39_Ba)}}; } };
template <> struct EnumOf<En40> { typedef En40_Cls C; static const char *name() { return "En40"; } static std::vector<EV> get() { return {{"En40_A", uint64_t(En40::En40_A)}, {"En40_AB", uint64_t(En40::En40_AB)}, {"En40_Ba", uint64_t(En40::En40_Ba)}}; } };
template <> struct EnumOf<En41> { typedef En41_Cls C; static const char *name() { return "En41"; } static std::vector<EV> get() { return {{"En41_A", uint64_t(En41::En41_A)}, {"En41_AB", uint64_t(En41::En41_AB)}, {"En41_Ba", uint64_t(En41::En41_Ba)}}; } };
template <> struct EnumOf<En42> { typedef En42_Cls C; static const char *name() { return "En42"; } static std::vector<EV> get() { return {{"En42_A", uint64_t(En42::En42_A)}, {"En42_AB", uint64_t(En42::En42_AB)}, {"En42_Ba", uint64_t(En42::En42_Ba)}}; } };
template <> struct EnumOf<En43> { typedef En43_Cls C; static const char *name() { return "En43"; } static std::vector<EV> get() { return {{"En43_A", uint64_t(En43::En43_A)}, {"En43_AB", uint64_t(En43::En43_AB)}, {"En43_Ba", uint64_t(En43::En43_Ba)}}; } };
template <> struct EnumOf<En44> { typedef En44_Cls C; static const char *name() { return "En44"; } static std::vector<EV> get() { return {{"En44_A", uint64_t(En44::En44_A)}, {"En44_AB", uint64_t(En44::En44_AB)}, {"En44_Ba", uint64_t(En44::En44_Ba)}}; } };
template <> struct EnumOf<En45> { typedef En45_Cls C; static const char *name() { return "En45"; } static std::vector<EV> get() { return {{"En45_A", uint64_t(En45::En45_A)}, {"En45_AB", uint64_t(En45::En45_AB)}, {"En45_Ba", uint64_t(En45::En45_Ba)}}; } };
template <> struct EnumOf<En46> { typedef En46_Cls C; static const char *name() { return "En46"; } static std::vector<EV> get() { return {{"En46_A", uint64_t(En46::En46_A)}, {"En46_AB", uint64_t(En46::En46_AB)}, {"En46_Ba", uint64_t(En46::En46_Ba)}}; } };
template <> struct EnumOf<En47> { typedef En47_Cls C; static const char *name() { return "En47"; } static std::vector<EV> get() { return {{"En47_A", uint64_t(En47::En47_A)}, {"En47_AB", uint64_t(En47::En47_AB)}, {"En47_Ba", uint64_t(En47::En47_Ba)}}; } };
template <> struct EnumOf<En48> { typedef En48_Cls C; static const char *name() { return "En48"; } static std::vector<EV> get() { return {{"En48_A", uint64_t(En48::En48_A)}, {"En48_AB", uint64_t(En48::En48_AB)}, {"En48_Ba", uint64_t(En48::En48_Ba)}}; } };
template <> struct EnumOf<En49> { typedef En49_Cls C; static const char *name() { return "En49"; } static std::vector<EV> get() { return {{"En49_A", uint64_t(En49::En49_A)}, {"En49_AB", uint64_t(En49::En49_AB)}, {"En49_Ba", uint64_t(En49::En49_Ba)}}; } };
template <> struct EnumOf<En50> { typedef En50_Cls C; static const char *name() { return "En50"; } static std::vector<EV> get() { return {{"En50_A", uint64_t(En50::En50_A)}, {"En50_AB", uint64_t(En50::En50_AB)}, {"En50_Ba", uint64_t(En50::En50_Ba)}}; } };
template <> struct EnumOf<En51> { typedef En51_Cls C; static const char *name() { return "En51"; } static std::vector<EV> get() { return {{"En51_A", uint64_t(En51::En51_A)}, {"En51_AB", uint64_t(En51::En51_AB)}, {"En51_Ba", uint64_t(En51::En51_Ba)}}; } };
template <> struct EnumOf<En52> { typedef En52_Cls C; static const char *name() { return "En52"; } static std::vector<EV> get() { return {{"En52_A", uint64_t(En52::En52_A)}, {"En52_AB", uint64_t(En52::En52_AB)}, {"En52_Ba", uint64_t(En52::En52_Ba)}}; } };
template <> struct EnumOf<En53> { typedef En53_Cls C; static const char *name() { return "En53"; } static std::vector<EV> get() { return {{"En53_A", uint64_t(En53::En53_A)}, {"En53_AB", uint64_t(En53::En53_AB)}, {"En53_Ba", uint64_t(En53::En53_Ba)}}; } };
template <> struct EnumOf<En54> { typedef En54_Cls C; static const char *name() { return "En54"; } static std::vector<EV> get() { return {{"En54_A", uint64_t(En54::En54_A)}, {"En54_AB", uint64_t(En54::En54_AB)}, {"En54_Ba", uint64_t(En54::En54_Ba)}}; } };
template <> struct EnumOf<En55> { typedef En55_Cls C; static const char *name() { return "En55"; } static std::vector<EV> get() { return {{"En55_A", uint64_t(En55::En55_A)}, {"En55_AB", uint64_t(En55::En55_AB)}, {"En55_Ba", uint64_t(En55::En55_Ba)}}; } };
template <> struct EnumOf<En56> { typedef En56_Cls C; static const char *name() { return "En56"; } static std::vector<EV> get() { return {{"En56_A", uint64_t(En56::En56_A)}, {"En56_AB", uint64_t(En56::En56_AB)}, {"En56_Ba", uint64_t(En56::En56_Ba)}}; } };
template <> struct EnumOf<En57> { typedef En57_Cls C; static const char *name() { return "En57"; } static std::vector<EV> get() { return {{"En57_A", uint64_t(En57::En57_A)}, {"En57_AB", uint64_t(En57::En57_AB)}, {"En57_Ba", uint64_t(En57::En57_Ba)}}; } };
template <> struct EnumOf<En58> { typedef En58_Cls C; static const char *name() { return "En58"; } static std::vector<EV> get() { return {{"En58_A", uint64_t(En58::En58_A)}, {"En58_AB", uint64_t(En58::En58_AB)}, {"En58_Ba", uint64_t(En58::En58_Ba)}}; } };
template <> struct EnumOf<En59> { typedef En59_Cls C; static const char *name() { return "En59"; } static std::vector<EV> get() { return {{"En59_A", uint64_t(En59::En59_A)}, {"En59_AB", uint64_t(En59::En59_AB)}, {"En59_Ba", uint64_t(En59::En59_Ba)}}; } };
template <> struct EnumOf<En60> { typedef En60_Cls C; static const char *name() { return "En60"; } static std::vector<EV> get() { return {{"En60_A", uint64_t(En60::En60_A)}, {"En60_AB", uint64_t(En60::En60_AB)}, {"En60_Ba", uint64_t(En60::En60_Ba)}}; } };
template <> struct EnumOf<En61> { typedef En61_Cls C; static const char *name() { return "En61"; } static std::vector<EV> get() { return {{"En61_A", uint64_t(En61::En61_A)}, {"En61_AB", uint64_t(En61::En61_AB)}, {"En61_Ba", uint64_t(En61::En61_Ba)}}; } };
template <> struct EnumOf<En62> { typedef En62_Cls C; static const char *name() { return "En62"; } static std::vector<EV> get() { return {{"En62_A", uint64_t(En62::En62_A)}, {"En62_AB", uint64_t(En62::En62_AB)}, {"En62_Ba", uint64_t(En62::En62_Ba)}}; } };
template <> struct EnumOf<En63> { typedef En63_Cls C; static const char *name() { return "En63"; } static std::vector<EV> get() { return {{"En63_A", uint64_t(En63::En63_A)}, {"En63_AB", uint64_t(En63::En63_AB)}, {"En63_Ba", uint64_t(En63::En63_Ba)}}; } };
template <> struct EnumOf<En64> { typedef En64_Cls C; static const char *name() { return "En64"; } static std::vector<EV> get() { return {{"En64_A", uint64_t(En64::En64_A)}, {"En64_AB", uint64_t(En64::En64_AB)}, {"En64_Ba", uint64_t(En64::En64_Ba)}}; } };
template <> struct EnumOf<En65> { typedef En65_Cls C; static const char *name() { return "En65"; } static std::vector<EV> get() { return {{"En65_A", uint64_t(En65::En65_A)}, {"En65_AB", uint64_t(En65::En65_AB)}, {"En65_Ba", uint64_t(En65::En65_Ba)}}; } };
template <> struct EnumOf<En66> { typedef En66_Cls C; static const char *name() { return "En66"; } static std::vector<EV> get() { return {{"En66_A", uint64_t(En66::En66_A)}, {"En66_AB", uint64_t(En66::En66_AB)}, {"En66_Ba", uint64_t(En66::En66_Ba)}}; } };
template <> struct EnumOf<En67> { typedef En67_Cls C; static const char *name() { return "En67"; } static std::vector<EV> get() { return {{"En67_A", uint64_t(En67::En67_A)}, {"En67_AB", uint64_t(En67::En67_AB)}, {"En67_Ba", uint64_t(En67::En67_Ba)}}; } };
template <> struct EnumOf<En68> { typedef En68_Cls C; static const char *name() { return "En68"; } static std::vector<EV> get() { return {{"En68_A", uint64_t(En68::En68_A)}, {"En68_AB", uint64_t(En68::En68_AB)}, {"En68_Ba", uint64_t(En68::En68_Ba)}}; } };
template <> struct EnumOf<En69> { typedef En69_Cls C; static const char *name() { return "En69"; } static std::vector<EV> get() { return {{"En69_A", uint64_t(En69::En69_A)}, {"En69_AB", uint64_t(En69::En69_AB)}, {"En69_Ba", uint64_t(En69::En69_Ba)}}; } };
template <> struct EnumOf<En70> { typedef En70_Cls C; static const char *name() { return "En70"; } static std::vector<EV> get() { return {{"En70_A", uint64_t(En70::En70_A)}, {"En70_AB", uint64_t(En70::En70_AB)}, {"En70_Ba", uint64_t(En70::En70_Ba)}}; } };
template <> struct EnumOf<En71> { typedef En71_Cls C; static const char *name() { return "En71"; } static std::vector<EV> get() { return {{"En71_A", uint64_t(En71::En71_A)}, {"En71_AB", uint64_t(En71::En71_AB)}, {"En71_Ba", uint64_t(En71::En71_Ba)}}; } };
template <> struct EnumOf<En72> { typedef En72_Cls C; static const char *name() { return "En72"; } static std::vector<EV> get() { return {{"En72_A", uint64_t(En72::En72_A)}, {"En72_AB", uint64_t(En72::En72_AB)}, {"En72_Ba", uint64_t(En72::En72_Ba)}}; } };
template <> struct EnumOf<En73> { typedef En73_Cls C; static const char *name() { return "En73"; } static std::vector<EV> get() { return {{"En73_A", uint64_t(En73::En73_A)}, {"En73_AB", uint64_t(En73::En73_AB)}, {"En73_Ba", uint64_t(En73::En73_Ba)}}; } };
template <> struct EnumOf<En74> { typedef En74_Cls C; static const char *name() { return "En74"; } static std::vector<EV> get() { return {{"En74_A", uint64_t(En74::En74_A)}, {"En74_AB", uint64_t(En74::En74_AB)}, {"En74_Ba", uint64_t(En74::En74_Ba)}}; } };
template <> struct EnumOf<En75> { typedef En75_Cls C; static const char *name() { return "En75"; } static std::vector<EV> get() { return {{"En75_A", uint64_t(En75::En75_A)}, {"En75_AB", uint64_t(En75::En75_AB)}, {"En75_Ba", uint64_t(En75::En75_Ba)}}; } };
template <> struct EnumOf<En76> { typedef En76_Cls C; static const char *name() { return "En76"; } static std::vector<EV> get() { return {{"En76_A", uint64_t(En76::En76_A)}, {"En76_AB", uint64_t(En76::En76_AB)}, {"En76_Ba", uint64_t(En76::En76_Ba)}}; } };
template <> struct EnumOf<En77> { typedef En77_Cls C; static const char *name() { return "En77"; } static std::vector<EV> get() { return {{"En77_A", uint64_t(En77::En77_A)}, {"En77_AB", uint64_t(En77::En77_AB)}, {"En77_Ba", uint64_t(En77::En77_Ba)}}; } };
template <> struct EnumOf<En78> { typedef En78_Cls C; static const char *name() { return "En78"; } static std::vector<EV> get() { return {{"En78_A", uint64_t(En78::En78_A)}, {"En78_AB", uint64_t(En78::En78_AB)}, {"En78_Ba", uint64_t(En78::En78_Ba)}}; } };
template <> struct EnumOf<En79> { typedef En79_Cls C; static const char *name() { return "En79"; } static std::vector<EV> get() { return {{"En79_A", uint64_t(En79::En79_A)}, {"En79_AB", uint64_t(En79::En79_AB)}, {"En79_Ba", uint64_t(En79::En79_Ba)}}; } };
template <> struct EnumOf<En80> { typedef En80_Cls C; static const char *name() { return "En80"; } static std::vector<EV> get() { return {{"En80_A", uint64_t(En80::En80_A)}, {"En80_AB", uint64_t(En80::En80_AB)}, {"En80_Ba", uint64_t(En80::En80_Ba)}}; } };
template <> struct EnumOf<En81> { typedef En81_Cls C; static const char *name() { return "En81"; } static std::vector<EV> get() { return {{"En81_A", uint64_t(En81::En81_A)}, {"En81_AB", uint64_t(En81::En81_AB)}, {"En81_Ba", uint64_t(En81::En81_Ba)}}; } };
template <> struct EnumOf<En82> { typedef En82_Cls C; static const char *name() { return "En82"; } static std::vector<EV> get() { return {{"En82_A", uint64_t(En82::En82_A)}, {"En82_AB", uint64_t(En82::En82_AB)}, {"En82_Ba", uint64_t(En82::En82_Ba)}}; } };
template <> struct EnumOf<En83> { typedef En83_Cls C; static const char *name() { return "En83"; } static std::vector<EV> get() { return {{"En83_A", uint64_t(En83::En83_A)}, {"En83_AB", uint64_t(En83::En83_AB)}, {"En83_Ba", uint64_t(En83::En83_Ba)}}; } };
template <> struct EnumOf<En84> { typedef En84_Cls C; static const char *name() { return "En84"; } static std::vector<EV> get() { return {{"En84_A", uint64_t(En84::En84_A)}, {"En84_AB", uint64_t(En84::En84_AB)}, {"En84_Ba", uint64_t(En84::En84_Ba)}}; } };
template <> struct EnumOf<En85> { typedef En85_Cls C; static const char *name() { return "En85"; } static std::vector<EV> get() { return {{"En85_A", uint64_t(En85::En85_A)}, {"En85_AB", uint64_t(En85::En85_AB)}, {"En85_Ba", uint64_t(En85::En85_Ba)}}; } };
template <> struct EnumOf<En86> { typedef En86_Cls C; static const char *name() { return "En86"; } static std::vector<EV> get() { return {{"En86_A", uint64_t(En86::En86_A)}, {"En86_AB", uint64_t(En86::En86_AB)}, {"En86_Ba", uint64_t(En86::En86_Ba)}}; } };
template <> struct EnumOf<En87> { typedef En87_Cls C; static const char *name() { return "En87"; } static std::vector<EV> get() { return {{"En87_A", uint64_t(En87::En87_A)}, {"En87_AB", uint64_t(En87::En87_AB)}, {"En87_Ba", uint64_t(En87::En87_Ba)}}; } };
template <> struct EnumOf<En88> { typedef En88_Cls C; static const char *name() { return "En88"; } static std::vector<EV> get() { return {{"En88_A", uint64_t(En88::En88_A)}, {"En88_AB", uint64_t(En88::En88_AB)}, {"En88_Ba", uint64_t(En88::En88_Ba)}}; } };
template <> struct EnumOf<En89> { typedef En89_Cls C; static const char *name() { return "En89"; } static std::vector<EV> get() { return {{"En89_A", uint64_t(En89::En89_A)}, {"En89_AB", uint64_t(En89::En89_AB)}, {"En89_Ba", uint64_t(En89::En89_Ba)}}; } };
template <> struct EnumOf<En90> { typedef En90_Cls C; static const char *name() { return "En90"; } static std::vector<EV> get() { return {{"En90_A", uint64_t(En90::En90_A)}, {"En90_AB", uint64_t(En90::En90_AB)}, {"En90_Ba", uint64_t(En90::En90_Ba)}}; } };
template <> struct EnumOf<En91> { typedef En91_Cls C; static const char *name() { return "En91"; } static std::vector<EV> get() { return {{"En91_A", uint64_t(En91::En91_A)}, {"En91_AB", uint64_t(En91::En91_AB)}, {"En91_Ba", uint64_t(En91::En91_Ba)}}; } };
template <> struct EnumOf<En92> { typedef En92_Cls C; static const char *name() { return "En92"; } static std::vector<EV> get() { return {{"En92_A", uint64_t(En92::En92_A)}, {"En92_AB", uint64_t(En92::En92_AB)}, {"En92_Ba", uint64_t(En92::En92_Ba)}}; } };
template <> struct EnumOf<En93> { typedef En93_Cls C; static const char *name() { return "En93"; } static std::vector<EV> get() { return {{"En93_A", uint64_t(En93::En93_A)}, {"En93_AB", uint64_t(En93::En93_AB)}, {"En93_Ba", uint64_t(En93::En93_Ba)}}; } };
template <> struct EnumOf<En94> { typedef En94_Cls C; static const char *name() { return "En94"; } static std::vector<EV> get() { return {{"En94_A", uint64_t(En94::En94_A)}, {"En94_AB", uint64_t(En94::En94_AB)}, {"En94_Ba", uint64_t(En94::En94_Ba)}}; } };
template <> struct EnumOf<En95> { typedef En95_Cls C; static const char *name() { return "En95"; } static std::vector<EV> get() { return {{"En95_A", uint64_t(En95::En95_A)}, {"En95_AB", uint64_t(En95::En95_AB)}, {"En95_Ba", uint64_t(En95::En95_Ba)}}; } };
template <> struct EnumOf<En96> { typedef En96_Cls C; static const char *name() { return "En96"; } static std::vector<EV> get() { return {{"En96_A", uint64_t(En96::En96_A)}, {"En96_AB", uint64_t(En96::En96_AB)}, {"En96_Ba", uint64_t(En96::En96_Ba)}}; } };
template <> struct EnumOf<En97> { typedef En97_Cls C; static const char *name() { return "En97"; } static std::vector<EV> get() { return {{"En97_A", uint64_t(En97::En97_A)}, {"En97_AB", uint64_t(En97::En97_AB)}, {"En97_Ba", uint64_t(En97::En97_Ba)}}; } };
template <> struct EnumOf<En98> { typedef En98_Cls C; static const char *name() { return "En98"; } static std::vector<EV> get() { return {{"En98_A", uint64_t(En98::En98_A)}, {"En98_AB", uint64_t(En98::En98_AB)}, {"En98_Ba", uint64_t(En98::En98_Ba)}}; } };
template <> struct EnumOf<En99> { typedef En99_Cls C; static const char *name() { return "En99"; } static std::vector<EV> get() { return {{"En99_A", uint64_t(En99::En99_A)}, {"En99_AB", uint64_t(En99::En99_AB)}, {"En99_Ba", uint64_t(En99::En99_Ba)}}; } };
template <> struct EnumOf<En100> { typedef En100_Cls C; static const char *name() { return "En100"; } static std::vector<EV> get() { return {{"En100_A", uint64_t(En100::En100_A)}, {"En100_AB", uint64_t(En100::En100_AB)}, {"En100_Ba", uint64_t(En100::En100_Ba)}}; } };
template <> struct EnumOf<En101> { typedef En101_Cls C; static const char *name() { return "En101"; } static std::vector<EV> get() { return {{"En101_A", uint64_t(En101::En101_A)}, {"En101_AB", uint64_t(En101::En101_AB)}, {"En101_Ba", uint64_t(En101::En101_Ba)}}; } };
template <> struct EnumOf<En102> { typedef En102_Cls C; static const char *name() { return "En102"; } static std::vector<EV> get() { return {{"En102_A", uint64_t(En102::En102_A)}, {"En102_AB", uint64_t(En102::En102_AB)}, {"En102_Ba", uint64_t(En102::En102_Ba)}}; } };
template <> struct EnumOf<En103> { typedef En103_Cls C; static const char *name() { return "En103"; } static std::vector<EV> get() { return {{"En103_A", uint64_t(En103::En103_A)}, {"En103_AB", uint64_t(En103::En103_AB)}, {"En103_Ba", uint64_t(En103::En103_Ba)}}; } };
template <> struct EnumOf<En104> { typedef En104_Cls C; static const char *name() { return "En104"; } static std::vector<EV> get() { return {{"En104_A", uint64_t(En104::En104_A)}, {"En104_AB", uint64_t(En104::En104_AB)}, {"En104_Ba", uint64_t(En104::En104_Ba)}}; } };
template <> struct EnumOf<En105> { typedef En105_Cls C; static const char *name() { return "En105"; } static std::vector<EV> get() { return {{"En105_A", uint64_t(En105::En105_A)}, {"En105_AB", uint64_t(En105::En105_AB)}, {"En105_Ba", uint64_t(En105::En105_Ba)}}; } };
template <> struct EnumOf<En106> { typedef En106_Cls C; static const char *name() { return "En106"; } static std::vector<EV> get() { return {{"En106_A", uint64_t(En106::En106_A)}, {"En106_AB", uint64_t(En106::En106_AB)}, {"En106_Ba", uint64_t(En106::En106_Ba)}}; } };
template <> struct EnumOf<En107> { typedef En107_Cls C; static const char *name() { return "En107"; } static std::vector<EV> get() { return {{"En107_A", uint64_t(En107::En107_A)}, {"En107_AB", uint64_t(En107::En107_AB)}, {"En107_Ba", uint64_t(En107::En107_Ba)}}; } };
template <> struct EnumOf<En108> { typedef En108_Cls C; static const char *name() { return "En108"; } static std::vector<EV> get() { return {{"En108_A", uint64_t(En108::En108_A)}, {"En108_AB", uint64_t(En108::En108_AB)}, {"En108_Ba", uint64_t(En108::En108_Ba)}}; } };
template <> struct EnumOf<En109> { typedef En109_Cls C; static const char *name() { return "En109"; } static std::vector<EV> get() { return {{"En109_A", uint64_t(En109::En109_A)}, {"En109_AB", uint64_t(En109::En109_AB)}, {"En109_Ba", uint64_t(En109::En109_Ba)}}; } };
template <> struct EnumOf<En110> { typedef En110_Cls C; static const char *name() { return "En110"; } static std::vector<EV> get() { return {{"En110_A", uint64_t(En110::En110_A)}, {"En110_AB", uint64_t(En110::En110_AB)}, {"En110_Ba", uint64_t(En110::En110_Ba)}}; } };
template <> struct EnumOf<En111> { typedef En111_Cls C; static const char *name() { return "En111"; } static std::vector<EV> get() { return {{"En111_A", uint64_t(En111::En111_A)}, {"En111_AB", uint64_t(En111::En111_AB)}, {"En111_Ba", uint64_t(En111::En111_Ba)}}; } };
template <> struct EnumOf<En112> { typedef En112_Cls C; static const char *name() { return "En112"; } static std::vector<EV> get() { return {{"En112_A", uint64_t(En112::En112_A)}, {"En112_AB", uint64_t(En112::En112_AB)}, {"En112_Ba", uint64_t(En112::En112_Ba)}}; } };
template <> struct EnumOf<En113> { typedef En113_Cls C; static const char *name() { return "En113"; } static std::vector<EV> get() { return {{"En113_A", uint64_t(En113::En113_A)}, {"En113_AB", uint64_t(En113::En113_AB)}, {"En113_Ba", uint64_t(En113::En113_Ba)}}; } };
template <> struct EnumOf<En114> { typedef En114_Cls C; static const char *name() { return "En114"; } static std::vector<EV> get() { return {{"En114_A", uint64_t(En114::En114_A)}, {"En114_AB", uint64_t(En114::En114_AB)}, {"En114_Ba", uint64_t(En114::En114_Ba)}}; } };
template <> struct EnumOf<En115> { typedef En115_Cls C; static const char *name() { return "En115"; } static std::vector<EV> get() { return {{"En115_A", uint64_t(En115::En115_A)}, {"En115_AB", uint64_t(En115::En115_AB)}, {"En115_Ba", uint64_t(En115::En115_Ba)}}; } };
template <> struct EnumOf<En116> { typedef En116_Cls C; static const char *name() { return "En116"; } static std::vector<EV> get() { return {{"En116_A", uint64_t(En116::En116_A)}, {"En116_AB", uint64_t(En116::En116_AB)}, {"En116_Ba", uint64_t(En116::En116_Ba)}}; } };
template <> struct EnumOf<En117> { typedef En117_Cls C; static const char *name() { return "En117"; } static std::vector<EV> get() { return {{"En117_A", uint64_t(En117::En117_A)}, {"En117_AB", uint64_t(En117::En117_AB)}, {"En117_Ba", uint64_t(En117::En117_Ba)}}; } };
template <> struct EnumOf<En118> { typedef En118_Cls C; static const char *name() { return "En118"; } static std::vector<EV> get() { return {{"En118_A", uint64_t(En118::En118_A)}, {"En118_AB", uint64_t(En118::En118_AB)}, {"En118_Ba", uint64_t(En118::En118_Ba)}}; } };
template <> struct EnumOf<En119> { typedef En119_Cls C; static const char *name() { return "En119"; } static std::vector<EV> get() { return {{"En119_A", uint64_t(En119::En119_A)}, {"En119_AB", uint64_t(En119::En119_AB)}, {"En119_Ba", uint64_t(En119::En119_Ba)}}; } };
template <> struct EnumOf<En120> { typedef En120_Cls C; static const char *name() { return "En120"; } static std::vector<EV> get() { return {{"En120_A", uint64_t(En120::En120_A)}, {"En120_AB", uint64_t(En120::En120_AB)}, {"En120_Ba", uint64_t(En120::En120_Ba)}}; } };
template <> struct EnumOf<En121> { typedef En121_Cls C; static const char *name() { return "En121"; } static std::vector<EV> get() { return {{"En121_A", uint64_t(En121::En121_A)}, {"En121_AB", uint64_t(En121::En121_AB)}, {"En121_Ba", uint64_t(En121::En121_Ba)}}; } };
template <> struct EnumOf<En122> { typedef En122_Cls C; static const char *name() { return "En122"; } static std::vector<EV> get() { return {{"En122_A", uint64_t(En122::En122_A)}, {"En122_AB", uint64_t(En122::En122_AB)}, {"En122_Ba", uint64_t(En122::En122_Ba)}}; } };
template <> struct EnumOf<En123> { typedef En123_Cls C; static const char *name() { return "En123"; } static std::vector<EV> get() { return {{"En123_A", uint64_t(En123::En123_A)}, {"En123_AB", uint64_t(En123::En123_AB)}, {"En123_Ba", uint64_t(En123::En123_Ba)}}; } };
template <> struct EnumOf<En124> { typedef En124_Cls C; static const char *name() { return "En124"; } static std::vector<EV> get() { return {{"En124_A", uint64_t(En124::En124_A)}, {"En124_AB", uint64_t(En124::En124_AB)}, {"En124_Ba", uint64_t(En124::En124_Ba)}}; } };
template <> struct EnumOf<En125> { typedef En125_Cls C; static const char *name() { return "En125"; } static std::vector<EV> get() { return {{"En125_A", uint64_t(En125::En125_A)}, {"En125_AB", uint64_t(En125::En125_AB)}, {"En125_Ba", uint64_t(En125::En125_Ba)}}; } };
template <> struct EnumOf<En126> { typedef En126_Cls C; static const char *name() { return "En126"; } static std::vector<EV> get() { return {{"En126_A", uint64_t(En126::En126_A)}, {"En126_AB", uint64_t(En126::En126_AB)}, {"En126_Ba", uint64_t(En126::En126_Ba)}}; } };
template <> struct EnumOf<En127> { typedef En127_Cls C; static const char *name() { return "En127"; } static std::vector<EV> get() { return {{"En127_A", uint64_t(En127::En127_A)}, {"En127_AB", uint64_t(En127::En127_AB)}, {"En127_Ba", uint64_t(En127::En127_Ba)}}; } };
template <> struct EnumOf<En128> { typedef En128_Cls C; static const char *name() { return "En128"; } static std::vector<EV> get() { return {{"En128_A", uint64_t(En128::En128_A)}, {"En128_AB", uint64_t(En128::En128_AB)}, {"En128_Ba", uint64_t(En128::En128_Ba)}}; } };
template <> struct EnumOf<En129> { typedef En129_Cls C; static const char *name() { return "En129"; } static std::vector<EV> get() { return {{"En129_A", uint64_t(En129::En129_A)}, {"En129_AB", uint64_t(En129::En129_AB)}, {"En129_Ba", uint64_t(En129::En129_Ba)}}; } };
template <> struct EnumOf<En130> { typedef En130_Cls C; static const char *name() { return "En130"; } static std::vector<EV> get() { return {{"En130_A", uint64_t(En130::En130_A)}, {"En130_AB", uint64_t(En130::En130_AB)}, {"En130_Ba", uint64_t(En130::En130_Ba)}}; } };
template <> struct EnumOf<En131> { typedef En131_Cls C; static const char *name() { return "En131"; } static std::vector<EV> get() { return {{"En131_A", uint64_t(En131::En131_A)}, {"En131_AB", uint64_t(En131::En131_AB)}, {"En131_Ba", uint64_t(En131::En131_Ba)}}; } };
template <> struct EnumOf<En132> { typedef En132_Cls C; static const char *name() { return "En132"; } static std::vector<EV> get() { return {{"En132_A", uint64_t(En132::En132_A)}, {"En132_AB", uint64_t(En132::En132_AB)}, {"En132_Ba", uint64_t(En132::En132_Ba)}}; } };
template <> struct EnumOf<En133> { typedef En133_Cls C; static const char *name() { return "En133"; } static std::vector<EV> get() { return {{"En133_A", uint64_t(En133::En133_A)}, {"En133_AB", uint64_t(En133::En133_AB)}, {"En133_Ba", uint64_t(En133::En133_Ba)}}; } };
template <> struct EnumOf<En134> { typedef En134_Cls C; static const char *name() { return "En134"; } static std::vector<EV> get() { return {{"En134_A", uint64_t(En134::En134_A)}, {"En134_AB", uint64_t(En134::En134_AB)}, {"En134_Ba", uint64_t(En134::En134_Ba)}}; } };
template <> struct EnumOf<En135> { typedef En135_Cls C; static const char *name() { return "En135"; } static std::vector<EV> get() { return {{"En135_A", uint64_t(En135::En135_A)}, {"En135_AB", uint64_t(En135::En135_AB)}, {"En135_Ba", uint64_t(En135::En135_Ba)}}; } };
template <> struct EnumOf<En136> { typedef En136_Cls C; static const char *name() { return "En136"; } static std::vector<EV> get() { return {{"En136_A", uint64_t(En136::En136_A)}, {"En136_AB", uint64_t(En136::En136_AB)}, {"En136_Ba", uint64_t(En136::En136_Ba)}}; } };
template <> struct EnumOf<En137> { typedef En137_Cls C; static const char *name() { return "En137"; } static std::vector<EV> get() { return {{"En137_A", uint64_t(En137::En137_A)}, {"En137_AB", uint64_t(En137::En137_AB)}, {"En137_Ba", uint64_t(En137::En137_Ba)}}; } };
template <> struct EnumOf<En138> { typedef En138_Cls C; static const char *name() { return "En138"; } static std::vector<EV> get() { return {{"En138_A", uint64_t(En138::En138_A)}, {"En138_AB", uint64_t(En138::En138_AB)}, {"En138_Ba", uint64_t(En138::En138_Ba)}}; } };
template <> struct EnumOf<En139> { typedef En139_Cls C; static const char *name() { return "En139"; } static std::vector<EV> get() { return {{"En139_A", uint64_t(En139::En139_A)}, {"En139_AB", uint64_t(En139::En139_AB)}, {"En139_Ba", uint64_t(En139::En139_Ba)}}; } };
template <> struct EnumOf<En140> { typedef En140_Cls C; static const char *name() { return "En140"; } static std::vector<EV> get() { return {{"En140_A", uint64_t(En140::En140_A)}, {"En140_AB", uint64_t(En140::En140_AB)}, {"En140_Ba", uint64_t(En140::En140_Ba)}}; } };
template <> struct EnumOf<En141> { typedef En141_Cls C; static const char *name() { return "En141"; } static std::vector<EV> get() { return {{"En141_A", uint64_t(En141::En141_A)}, {"En141_AB", uint64_t(En141::En141_AB)}, {"En141_Ba", uint64_t(En141::En141_Ba)}}; } };
template <> struct EnumOf<En142> { typedef En142_Cls C; static const char *name() { return "En142"; } static std::vector<EV> get() { return {{"En142_A", uint64_t(En142::En142_A)}, {"En142_AB", uint64_t(En142::En142_AB)}, {"En142_Ba", uint64_t(En142::En142_Ba)}}; } };
template <> struct EnumOf<En143> { typedef En143_Cls C; static const char *name() { return "En143"; } static std::vector<EV> get() { return {{"En143_A", uint64_t(En143::En143_A)}, {"En143_AB", uint64_t(En143::En143_AB)}, {"En143_Ba", uint64_t(En143::En143_Ba)}}; } };
template <> struct EnumOf<En144> { typedef En144_Cls C; static const char *name() { return "En144"; } static std::vector<EV> get() { return {{"En144_A", uint64_t(En144::En144_A)}, {"En144_AB", uint64_t(En144::En144_AB)}, {"En144_Ba", uint64_t(En144::En144_Ba)}}; } };
template <> struct EnumOf<En145> { typedef En145_Cls C; static const char *name() { return "En145"; } static std::vector<EV> get() { return {{"En145_A", uint64_t(En145::En145_A)}, {"En145_AB", uint64_t(En145::En145_AB)}, {"En145_Ba", uint64_t(En145::En145_Ba)}}; } };
template <> struct EnumOf<En146> { typedef En146_Cls C; static const char *name() { return "En146"; } static std::vector<EV> get() { return {{"En146_A", uint64_t(En146::En146_A)}, {"En146_AB", uint64_t(En146::En146_AB)}, {"En146_Ba", uint64_t(En146::En146_Ba)}}; } };
template <> struct EnumOf<En147> { typedef En147_Cls C; static const char *name() { return "En147"; } static std::vector<EV> get() { return {{"En147_A", uint64_t(En147::En147_A)}, {"En147_AB", uint64_t(En147::En147_AB)}, {"En147_Ba", uint64_t(En147::En147_Ba)}}; } };
template <> struct EnumOf<En148> { typedef En148_Cls C; static const char *name() { return "En148"; } static std::vector<EV> get() { return {{"En148_A", uint64_t(En148::En148_A)}, {"En148_AB", uint64_t(En148::En148_AB)}, {"En148_Ba", uint64_t(En148::En148_Ba)}}; } };
template <> struct EnumOf<En149> { typedef En149_Cls C; static const char *name() { return "En149"; } static std::vector<EV> get() { return {{"En149_A", uint64_t(En149::En149_A)}, {"En149_AB", uint64_t(En149::En149_AB)}, {"En149_Ba", uint64_t(En149::En149_Ba)}}; } };
template <> struct EnumOf<En150> { typedef En150_Cls C; static const char *name() { return "En150"; } static std::vector<EV> get() { return {{"En150_A", uint64_t(En150::En150_A)}, {"En150_AB", uint64_t(En150::En150_AB)}, {"En150_Ba", uint64_t(En150::En150_Ba)}}; } };
template <> struct EnumOf<En151> { typedef En151_Cls C; static const char *name() { return "En151"; } static std::vector<EV> get() { return {{"En151_A", uint64_t(En151::En151_A)}, {"En151_AB", uint64_t(En151::En151_AB)}, {"En151_Ba", uint64_t(En151::En151_Ba)}}; } };
template <> struct EnumOf<En152> { typedef En152_Cls C; static const char *name() { return "En152"; } static std::vector<EV> get() { return {{"En152_A", uint64_t(En152::En152_A)}, {"En152_AB", uint64_t(En152::En152_AB)}, {"En152_Ba", uint64_t(En152::En152_Ba)}}; } };
template <> struct EnumOf<En153> { typedef En153_Cls C; static const char *name() { return "En153"; } static std::vector<EV> get() { return {{"En153_A", uint64_t(En153::En153_A)}, {"En153_AB", uint64_t(En153::En153_AB)}, {"En153_Ba", uint64_t(En153::En153_Ba)}}; } };
template <> struct EnumOf<En154> { typedef En154_Cls C; static const char *name() { return "En154"; } static std::vector<EV> get() { return {{"En154_A", uint64_t(En154::En154_A)}, {"En154_AB", uint64_t(En154::En154_AB)}, {"En154_Ba", uint64_t(En154::En154_Ba)}}; } };
template <> struct EnumOf<En155> { typedef En155_Cls C; static const char *name() { return "En155"; } static std::vector<EV> get() { return {{"En155_A", uint64_t(En155::En155_A)}, {"En155_AB", uint64_t(En155::En155_AB)}, {"En155_Ba", uint64_t(En155::En155_Ba)}}; } };
template <> struct EnumOf<En156> { typedef En156_Cls C; static const char *name() { return "En156"; } static std::vector<EV> get() { return {{"En156_A", uint64_t(En156::En156_A)}, {"En156_AB", uint64_t(En156::En156_AB)}, {"En156_Ba", uint64_t(En156::En156_Ba)}}; } };
template <> struct EnumOf<En157> { typedef En157_Cls C; static const char *name() { return "En157"; } static std::vector<EV> get() { return {{"En157_A", uint64_t(En157::En157_A)}, {"En157_AB", uint64_t(En157::En157_AB)}, {"En157_Ba", uint64_t(En157::En157_Ba)}}; } };
template <> struct EnumOf<En158> { typedef En158_Cls C; static const char *name() { return "En158"; } static std::vector<EV> get() { return {{"En158_A", uint64_t(En158::En158_A)}, {"En158_AB", uint64_t(En158::En158_AB)}, {"En158_Ba", uint64_t(En158::En158_Ba)}}; } };
template <> struct EnumOf<En159> { typedef En159_Cls C; static const char *name() { return "En159"; } static std::vector<EV> get() { return {{"En159_A", uint64_t(En159::En159_A)}, {"En159_AB", uint64_t(En159::En159_AB)}, {"En159_Ba", uint64_t(En159::En159_Ba)}}; } };
template <> struct EnumOf<En160> { typedef En160_Cls C; static const char *name() { return "En160"; } static std::vector<EV> get() { return {{"En160_A", uint64_t(En160::En160_A)}, {"En160_AB", uint64_t(En160::En160_AB)}, {"En160_Ba", uint64_t(En160::En160_Ba)}}; } };
template <> struct EnumOf<En161> { typedef En161_Cls C; static const char *name() { return "En161"; } static std::vector<EV> get() { return {{"En161_A", uint64_t(En161::En161_A)}, {"En161_AB", uint64_t(En161::En161_AB)}, {"En161_Ba", uint64_t(En161::En161_Ba)}}; } };
template <> struct EnumOf<En162> { typedef En162_Cls C; static const char *name() { return "En162"; } static std::vector<EV> get() { return {{"En162_A", uint64_t(En162::En162_A)}, {"En162_AB", uint64_t(En162::En162_AB)}, {"En162_Ba", uint64_t(En162::En162_Ba)}}; } };
template <> struct EnumOf<En163> { typedef En163_Cls C; static const char *name() { return "En163"; } static std::vector<EV> get() { return {{"En163_A", uint64_t(En163::En163_A)}, {"En163_AB", uint64_t(En163::En163_AB)}, {"En163_Ba", uint64_t(En163::En163_Ba)}}; } };
template <> struct EnumOf<En164> { typedef En164_Cls C; static const char *name() { return "En164"; } static std::vector<EV> get() { return {{"En164_A", uint64_t(En164::En164_A)}, {"En164_AB", uint64_t(En164::En164_AB)}, {"En164_Ba", uint64_t(En164::En164_Ba)}}; } };
template <> struct EnumOf<En165> { typedef En165_Cls C; static const char *name() { return "En165"; } static std::vector<EV> get() { return {{"En165_A", uint64_t(En165::En165_A)}, {"En165_AB", uint64_t(En165::En165_AB)}, {"En165_Ba", uint64_t(En165::En165_Ba)}}; } };
template <> struct EnumOf<En166> { typedef En166_Cls C; static const char *name() { return "En166"; } static std::vector<EV> get() { return {{"En166_A", uint64_t(En166::En166_A)}, {"En166_AB", uint64_t(En166::En166_AB)}, {"En166_Ba", uint64_t(En166::En166_Ba)}}; } };
template <> struct EnumOf<En167> { typedef En167_Cls C; static const char *name() { return "En167"; } static std::vector<EV> get() { return {{"En167_A", uint64_t(En167::En167_A)}, {"En167_AB", uint64_t(En167::En167_AB)}, {"En167_Ba", uint64_t(En167::En167_Ba)}}; } };
template <> struct EnumOf<En168> { typedef En168_Cls C; static const char *name() { return "En168"; } static std::vector<EV> get() { return {{"En168_A", uint64_t(En168::En168_A)}, {"En168_AB", uint64_t(En168::En168_AB)}, {"En168_Ba", uint64_t(En168::En168_Ba)}}; } };
template <> struct EnumOf<En169> { typedef En169_Cls C; static const char *name() { return "En169"; } static std::vector<EV> get() { return {{"En169_A", uint64_t(En169::En169_A)}, {"En169_AB", uint64_t(En169::En169_AB)}, {"En169_Ba", uint64_t(En169::En169_Ba)}}; } };
template <> struct EnumOf<En170> { typedef En170_Cls C; static const char *name() { return "En170"; } static std::vector<EV> get() { return {{"En170_A", uint64_t(En170::En170_A)}, {"En170_AB", uint64_t(En170::En170_AB)}, {"En170_Ba", uint64_t(En170::En170_Ba)}}; } };
template <> struct EnumOf<En171> { typedef En171_Cls C; static const char *name() { return "En171"; } static std::vector<EV> get() { return {{"En171_A", uint64_t(En171::En171_A)}, {"En171_AB", uint64_t(En171::En171_AB)}, {"En171_Ba", uint64_t(En171::En171_Ba)}}; } };
template <> struct EnumOf<En172> { typedef En172_Cls C; static const char *name() { return "En172"; } static std::vector<EV> get() { return {{"En172_A", uint64_t(En172::En172_A)}, {"En172_AB", uint64_t(En172::En172_AB)}, {"En172_Ba", uint64_t(En172::En172_Ba)}}; } };
template <> struct EnumOf<En173> { typedef En173_Cls C; static const char *name() { return "En173"; } static std::vector<EV> get() { return {{"En173_A", uint64_t(En173::En173_A)}, {"En173_AB", uint64_t(En173::En173_AB)}, {"En173_Ba", uint64_t(En173::En173_Ba)}}; } };
template <> struct EnumOf<En174> { typedef En174_Cls C; static const char *name() { return "En174"; } static std::vector<EV> get() { return {{"En174_A", uint64_t(En174::En174_A)}, {"En174_AB", uint64_t(En174::En174_AB)}, {"En174_Ba", uint64_t(En174::En174_Ba)}}; } };
template <> struct EnumOf<En175> { typedef En175_Cls C; static const char *name() { return "En175"; } static std::vector<EV> get() { return {{"En175_A", uint64_t(En175::En175_A)}, {"En175_AB", uint64_t(En175::En175_AB)}, {"En175_Ba", uint64_t(En175::En175_Ba)}}; } };
template <> struct EnumOf<En176> { typedef En176_Cls C; static const char *name() { return "En176"; } static std::vector<EV> get() { return {{"En176_A", uint64_t(En176::En176_A)}, {"En176_AB", uint64_t(En176::En176_AB)}, {"En176_Ba", uint64_t(En176::En176_Ba)}}; } };
template <> struct EnumOf<En177> { typedef En177_Cls C; static const char *name() { return "En177"; } static std::vector<EV> get() { return {{"En177_A", uint64_t(En177::En177_A)}, {"En177_AB", uint64_t(En177::En177_AB)}, {"En177_Ba", uint64_t(En177::En177_Ba)}}; } };
template <> struct EnumOf<En178> { typedef En178_Cls C; static const char *name() { return "En178"; } static std::vector<EV> get() { return {{"En178_A", uint64_t(En178::En178_A)}, {"En178_AB", uint64_t(En178::En178_AB)}, {"En178_Ba", uint64_t(En178::En178_Ba)}}; } };
template <> struct EnumOf<En179> { typedef En179_Cls C; static const char *name() { return "En179"; } static std::vector<EV> get() { return {{"En179_A", uint64_t(En179::En179_A)}, {"En179_AB", uint64_t(En179::En179_AB)}, {"En179_Ba", uint64_t(En179::En179_Ba)}}; } };
template <> struct EnumOf<En180> { typedef En180_Cls C; static const char *name() { return "En180"; } static std::vector<EV> get() { return {{"En180_A", uint64_t(En180::En180_A)}, {"En180_AB", uint64_t(En180::En180_AB)}, {"En180_Ba", uint64_t(En180::En180_Ba)}}; } };
template <> struct EnumOf<En181> { typedef En181_Cls C; static const char *name() { return "En181"; } static std::vector<EV> get() { return {{"En181_A", uint64_t(En181::En181_A)}, {"En181_AB", uint64_t(En181::En181_AB)}, {"En181_Ba", uint64_t(En181::En181_Ba)}}; } };
template <> struct EnumOf<En182> { typedef En182_Cls C; static const char *name() { return "En182"; } static std::vector<EV> get() { return {{"En182_A", uint64_t(En182::En182_A)}, {"En182_AB", uint64_t(En182::En182_AB)}, {"En182_Ba", uint64_t(En182::En182_Ba)}}; } };
template <> struct EnumOf<En183> { typedef En183_Cls C; static const char *name() { return "En183"; } static std::vector<EV> get() { return {{"En183_A", uint64_t(En183::En183_A)}, {"En183_AB", uint64_t(En183::En183_AB)}, {"En183_Ba", uint64_t(En183::En183_Ba)}}; } };
template <> struct EnumOf<En184> { typedef En184_Cls C; static const char *name() { return "En184"; } static std::vector<EV> get() { return {{"En184_A", uint64_t(En184::En184_A)}, {"En184_AB", uint64_t(En184::En184_AB)}, {"En184_Ba", uint64_t(En184::En184_Ba)}}; } };
template <> struct EnumOf<En185> { typedef En185_Cls C; static const char *name() { return "En185"; } static std::vector<EV> get() { return {{"En185_A", uint64_t(En185::En185_A)}, {"En185_AB", uint64_t(En185::En185_AB)}, {"En185_Ba", uint64_t(En185::En185_Ba)}}; } };
template <> struct EnumOf<En186> { typedef En186_Cls C; static const char *name() { return "En186"; } static std::vector<EV> get() { return {{"En186_A", uint64_t(En186::En186_A)}, {"En186_AB", uint64_t(En186::En186_AB)}, {"En186_Ba", uint64_t(En186::En186_Ba)}}; } };
template <> struct EnumOf<En187> { typedef En187_Cls C; static const char *name() { return "En187"; } static std::vector<EV> get() { return {{"En187_A", uint64_t(En187::En187_A)}, {"En187_AB", uint64_t(En187::En187_AB)}, {"En187_Ba", uint64_t(En187::En187_Ba)}}; } };
template <> struct EnumOf<En188> { typedef En188_Cls C; static const char *name() { return "En188"; } static std::vector<EV> get() { return {{"En188_A", uint64_t(En188::En188_A)}, {"En188_AB", uint64_t(En188::En188_AB)}, {"En188_Ba", uint64_t(En188::En188_Ba)}}; } };
template <> struct EnumOf<En189> { typedef En189_Cls C; static const char *name() { return "En189"; } static std::vector<EV> get() { return {{"En189_A", uint64_t(En189::En189_A)}, {"En189_AB", uint64_t(En189::En189_AB)}, {"En189_Ba", uint64_t(En189::En189_Ba)}}; } };
template <> struct EnumOf<En190> { typedef En190_Cls C; static const char *name() { return "En190"; } static std::vector<EV> get() { return {{"En190_A", uint64_t(En190::En190_A)}, {"En190_AB", uint64_t(En190::En190_AB)}, {"En190_Ba", uint64_t(En190::En190_Ba)}}; } };
template <> struct EnumOf<En191> { typedef En191_Cls C; static const char *name() { return "En191"; } static std::vector<EV> get() { return {{"En191_A", uint64_t(En191::En191_A)}, {"En191_AB", uint64_t(En191::En191_AB)}, {"En191_Ba", uint64_t(En191::En191_Ba)}}; } };
template <> struct EnumOf<En192> { typedef En192_Cls C; static const char *name() { return "En192"; } static std::vector<EV> get() { return {{"En192_A", uint64_t(En192::En192_A)}, {"En192_AB", uint64_t(En192::En192_AB)}, {"En192_Ba", uint64_t(En192::En192_Ba)}}; } };
template <> struct EnumOf<En193> { typedef En193_Cls C; static const char *name() { return "En193"; } static std::vector<EV> get() { return {{"En193_A", uint64_t(En193::En193_A)}, {"En193_AB", uint64_t(En193::En193_AB)}, {"En193_Ba", uint64_t(En193::En193_Ba)}}; } };
template <> struct EnumOf<En194> { typedef En194_Cls C; static const char *name() { return "En194"; } static std::vector<EV> get() { return {{"En194_A", uint64_t(En194::En194_A)}, {"En194_AB", uint64_t(En194::En194_AB)}, {"En194_Ba", uint64_t(En194::En194_Ba)}}; } };
template <> struct EnumOf<En195> { typedef En195_Cls C; static const char *name() { return "En195"; } static std::vector<EV> get() { return {{"En195_A", uint64_t(En195::En195_A)}, {"En195_AB", uint64_t(En195::En195_AB)}, {"En195_Ba", uint64_t(En195::En195_Ba)}}; } };
template <> struct EnumOf<En196> { typedef En196_Cls C; static const char *name() { return "En196"; } static std::vector<EV> get() { return {{"En196_A", uint64_t(En196::En196_A)}, {"En196_AB", uint64_t(En196::En196_AB)}, {"En196_Ba", uint64_t(En196::En196_Ba)}}; } };
template <> struct EnumOf<En197> { typedef En197_Cls C; static const char *name() { return "En197"; } static std::vector<EV> get() { return {{"En197_A", uint64_t(En197::En197_A)}, {"En197_AB", uint64_t(En197::En197_AB)}, {"En197_Ba", uint64_t(En197::En197_Ba)}}; } };
template <> struct EnumOf<En198> { typedef En198_Cls C; static const char *name() { return "En198"; } static std::vector<EV> get() { return {{"En198_A", uint64_t(En198::En198_A)}, {"En198_AB", uint64_t(En198::En198_AB)}, {"En198_Ba", uint64_t(En198::En198_Ba)}}; } };
template <> struct EnumOf<En199> { typedef En199_Cls C; static const char *name() { return "En199"; } static std::vector<EV> get() { return {{"En199_A", uint64_t(En199::En199_A)}, {"En199_AB", uint64_t(En199::En199_AB)}, {"En199_Ba", uint64_t(En199::En199_Ba)}}; } };
template <> struct EnumOf<En200> { typedef En200_Cls C; static const char *name() { return "En200"; } static std::vector<EV> get() { return {{"En200_A", uint64_t(En200::En200_A)}, {"En200_AB", uint64_t(En200::En200_AB)}, {"En200_Ba", uint64_t(En200::En200_Ba)}}; } };
template <> struct EnumOf<En201> { typedef En201_Cls C; static const char *name() { return "En201"; } static std::vector<EV> get() { return {{"En201_A", uint64_t(En201::En201_A)}, {"En201_AB", uint64_t(En201::En201_AB)}, {"En201_Ba", uint64_t(En201::En201_Ba)}}; } };
template <> struct EnumOf<En202> { typedef En202_Cls C; static const char *name() { return "En202"; } static std::vector<EV> get() { return {{"En202_A", uint64_t(En202::En202_A)}, {"En202_AB", uint64_t(En202::En202_AB)}, {"En202_Ba", uint64_t(En202::En202_Ba)}}; } };
template <> struct EnumOf<En203> { typedef En203_Cls C; static const char *name() { return "En203"; } static std::vector<EV> get() { return {{"En203_A", uint64_t(En203::En203_A)}, {"En203_AB", uint64_t(En203::En203_AB)}, {"En203_Ba", uint64_t(En203::En203_Ba)}}; } };
template <> struct EnumOf<En204> { typedef En204_Cls C; static const char *name() { return "En204"; } static std::vector<EV> get() { return {{"En204_A", uint64_t(En204::En204_A)}, {"En204_AB", uint64_t(En204::En204_AB)}, {"En204_Ba", uint64_t(En204::En204_Ba)}}; } };
template <> struct EnumOf<En205> { typedef En205_Cls C; static const char *name() { return "En205"; } static std::vector<EV> get() { return {{"En205_A", uint64_t(En205::En205_A)}, {"En205_AB", uint64_t(En205::En205_AB)}, {"En205_Ba", uint64_t(En205::En205_Ba)}}; } };
template <> struct EnumOf<En206> { typedef En206_Cls C; static const char *name() { return "En206"; } static std::vector<EV> get() { return {{"En206_A", uint64_t(En206::En206_A)}, {"En206_AB", uint64_t(En206::En206_AB)}, {"En206_Ba", uint64_t(En206::En206_Ba)}}; } };
template <> struct EnumOf<En207> { typedef En207_Cls C; static const char *name() { return "En207"; } static std::vector<EV> get() { return {{"En207_A", uint64_t(En207::En207_A)}, {"En207_AB", uint64_t(En207::En207_AB)}, {"En207_Ba", uint64_t(En207::En207_Ba)}}; } };
template <> struct EnumOf<En208> { typedef En208_Cls C; static const char *name() { return "En208"; } static std::vector<EV> get() { return {{"En208_A", uint64_t(En208::En208_A)}, {"En208_AB", uint64_t(En208::En208_AB)}, {"En208_Ba", uint64_t(En208::En208_Ba)}}; } };
template <> struct EnumOf<En209> { typedef En209_Cls C; static const char *name() { return "En209"; } static std::vector<EV> get() { return {{"En209_A", uint64_t(En209::En209_A)}, {"En209_AB", uint64_t(En209::En209_AB)}, {"En209_Ba", uint64_t(En209::En209_Ba)}}; } };
template <> struct EnumOf<En210> { typedef En210_Cls C; static const char *name() { return "En210"; } static std::vector<EV> get() { return {{"En210_A", uint64_t(En210::En210_A)}, {"En210_AB", uint64_t(En210::En210_AB)}, {"En210_Ba", uint64_t(En210::En210_Ba)}}; } };
template <> struct EnumOf<En211> { typedef En211_Cls C; static const char *name() { return "En211"; } static std::vector<EV> get() { return {{"En211_A", uint64_t(En211::En211_A)}, {"En211_AB", uint64_t(En211::En211_AB)}, {"En211_Ba", uint64_t(En211::En211_Ba)}}; } };
template <> struct EnumOf<En212> { typedef En212_Cls C; static const char *name() { return "En212"; } static std::vector<EV> get() { return {{"En212_A", uint64_t(En212::En212_A)}, {"En212_AB", uint64_t(En212::En212_AB)}, {"En212_Ba", uint64_t(En212::En212_Ba)}}; } };
template <> struct EnumOf<En213> { typedef En213_Cls C; static const char *name() { return "En213"; } static std::vector<EV> get() { return {{"En213_A", uint64_t(En213::En213_A)}, {"En213_AB", uint64_t(En213::En213_AB)}, {"En213_Ba", uint64_t(En213::En213_Ba)}}; } };
template <> struct EnumOf<En214> { typedef En214_Cls C; static const char *name() { return "En214"; } static std::vector<EV> get() { return {{"En214_A", uint64_t(En214::En214_A)}, {"En214_AB", uint64_t(En214::En214_AB)}, {"En214_Ba", uint64_t(En214::En214_Ba)}}; } };
template <> struct EnumOf<En215> { typedef En215_Cls C; static const char *name() { return "En215"; } static std::vector<EV> get() { return {{"En215_A", uint64_t(En215::En215_A)}, {"En215_AB", uint64_t(En215::En215_AB)}, {"En215_Ba", uint64_t(En215::En215_Ba)}}; } };
template <> struct EnumOf<En216> { typedef En216_Cls C; static const char *name() { return "En216"; } static std::vector<EV> get() { return {{"En216_A", uint64_t(En216::En216_A)}, {"En216_AB", uint64_t(En216::En216_AB)}, {"En216_Ba", uint64_t(En216::En216_Ba)}}; } };
template <> struct EnumOf<En217> { typedef En217_Cls C; static const char *name() { return "En217"; } static std::vector<EV> get() { return {{"En217_A", uint64_t(En217::En217_A)}, {"En217_AB", uint64_t(En217::En217_AB)}, {"En217_Ba", uint64_t(En217::En217_Ba)}}; } };
template <> struct EnumOf<En218> { typedef En218_Cls C; static const char *name() { return "En218"; } static std::vector<EV> get() { return {{"En218_A", uint64_t(En218::En218_A)}, {"En218_AB", uint64_t(En218::En218_AB)}, {"En218_Ba", uint64_t(En218::En218_Ba)}}; } };
template <> struct EnumOf<En219> { typedef En219_Cls C; static const char *name() { return "En219"; } static std::vector<EV> get() { return {{"En219_A", uint64_t(En219::En219_A)}, {"En219_AB", uint64_t(En219::En219_AB)}, {"En219_Ba", uint64_t(En219::En219_Ba)}}; } };
template <> struct EnumOf<En220> { typedef En220_Cls C; static const char *name() { return "En220"; } static std::vector<EV> get() { return {{"En220_A", uint64_t(En220::En220_A)}, {"En220_AB", uint64_t(En220::En220_AB)}, {"En220_Ba", uint64_t(En220::En220_Ba)}}; } };
template <> struct EnumOf<En221> { typedef En221_Cls C; static const char *name() { return "En221"; } static std::vector<EV> get() { return {{"En221_A", uint64_t(En221::En221_A)}, {"En221_AB", uint64_t(En221::En221_AB)}, {"En221_Ba", uint64_t(En221::En221_Ba)}}; } };
template <> struct EnumOf<En222> { typedef En222_Cls C; static const char *name() { return "En222"; } static std::vector<EV> get() { return {{"En222_A", uint64_t(En222::En222_A)}, {"En222_AB", uint64_t(En222::En222_AB)}, {"En222_Ba", uint64_t(En222::En222_Ba)}}; } };
template <> struct EnumOf<En223> { typedef En223_Cls C; static const char *name() { return "En223"; } static std::vector<EV> get() { return {{"En223_A", uint64_t(En223::En223_A)}, {"En223_AB", uint64_t(En223::En223_AB)}, {"En223_Ba", uint64_t(En223::En223_Ba)}}; } };
template <> struct EnumOf<En224> { typedef En224_Cls C; static const char *name() { return "En224"; } static std::vector<EV> get() { return {{"En224_A", uint64_t(En224::En224_A)}, {"En224_AB", uint64_t(En224::En224_AB)}, {"En224_Ba", uint64_t(En224::En224_Ba)}}; } };
template <> struct EnumOf<En225> { typedef En225_Cls C; static const char *name() { return "En225"; } static std::vector<EV> get() { return {{"En225_A", uint64_t(En225::En225_A)}, {"En225_AB", uint64_t(En225::En225_AB)}, {"En225_Ba", uint64_t(En225::En225_Ba)}}; } };
template <> struct EnumOf<En226> { typedef En226_Cls C; static const char *name() { return "En226"; } static std::vector<EV> get() { return {{"En226_A", uint64_t(En226::En226_A)}, {"En226_AB", uint64_t(En226::En226_AB)}, {"En226_Ba", uint64_t(En226::En226_Ba)}}; } };
template <> struct EnumOf<En227> { typedef En227_Cls C; static const char *name() { return "En227"; } static std::vector<EV> get() { return {{"En227_A", uint64_t(En227::En227_A)}, {"En227_AB", uint64_t(En227::En227_AB)}, {"En227_Ba", uint64_t(En227::En227_Ba)}}; } };
template <> struct EnumOf<En228> { typedef En228_Cls C; static const char *name() { return "En228"; } static std::vector<EV> get() { return {{"En228_A", uint64_t(En228::En228_A)}, {"En228_AB", uint64_t(En228::En228_AB)}, {"En228_Ba", uint64_t(En228::En228_Ba)}}; } };
template <> struct EnumOf<En229> { typedef En229_Cls C; static const char *name() { return "En229"; } static std::vector<EV> get() { return {{"En229_A", uint64_t(En229::En229_A)}, {"En229_AB", uint64_t(En229::En229_AB)}, {"En229_Ba", uint64_t(En229::En229_Ba)}}; } };
template <> struct EnumOf<En230> { typedef En230_Cls C; static const char *name() { return "En230"; } static std::vector<EV> get() { return {{"En230_A", uint64_t(En230::En230_A)}, {"En230_AB", uint64_t(En230::En230_AB)}, {"En230_Ba", uint64_t(En230::En230_Ba)}}; } };
template <> struct EnumOf<En231> { typedef En231_Cls C; static const char *name() { return "En231"; } static std::vector<EV> get() { return {{"En231_A", uint64_t(En231::En231_A)}, {"En231_AB", uint64_t(En231::En231_AB)}, {"En231_Ba", uint64_t(En231::En231_Ba)}}; } };
template <> struct EnumOf<En232> { typedef En232_Cls C; static const char *name() { return "En232"; } static std::vector<EV> get() { return {{"En232_A", uint64_t(En232::En232_A)}, {"En232_AB", uint64_t(En232::En232_AB)}, {"En232_Ba", uint64_t(En232::En232_Ba)}}; } };
template <> struct EnumOf<En233> { typedef En233_Cls C; static const char *name() { return "En233"; } static std::vector<EV> get() { return {{"En233_A", uint64_t(En233::En233_A)}, {"En233_AB", uint64_t(En233::En233_AB)}, {"En233_Ba", uint64_t(En233::En233_Ba)}}; } };
template <> struct EnumOf<En234> { typedef En234_Cls C; static const char *name() { return "En234"; } static std::vector<EV> get() { return {{"En234_A", uint64_t(En234::En234_A)}, {"En234_AB", uint64_t(En234::En234_AB)}, {"En234_Ba", uint64_t(En234::En234_Ba)}}; } };
template <> struct EnumOf<En235> { typedef En235_Cls C; static const char *name() { return "En235"; } static std::vector<EV> get() { return {{"En235_A", uint64_t(En235::En235_A)}, {"En235_AB", uint64_t(En235::En235_AB)}, {"En235_Ba", uint64_t(En235::En235_Ba)}}; } };
template <> struct EnumOf<En236> { typedef En236_Cls C; static const char *name() { return "En236"; } static std::vector<EV> get() { return {{"En236_A", uint64_t(En236::En236_A)}, {"En236_AB", uint64_t(En236::En236_AB)}, {"En236_Ba", uint64_t(En236::En236_Ba)}}; } };
template <> struct EnumOf<En237> { typedef En237_Cls C; static const char *name() { return "En237"; } static std::vector<EV> get() { return {{"En237_A", uint64_t(En237::En237_A)}, {"En237_AB", uint64_t(En237::En237_AB)}, {"En237_Ba", uint64_t(En237::En237_Ba)}}; } };
template <> struct EnumOf<En238> { typedef En238_Cls C; static const char *name() { return "En238"; } static std::vector<EV> get() { return {{"En238_A", uint64_t(En238::En238_A)}, {"En238_AB", uint64_t(En238::En238_AB)}, {"En238_Ba", uint64_t(En238::En238_Ba)}}; } };
template <> struct EnumOf<En239> { typedef En239_Cls C; static const char *name() { return "En239"; } static std::vector<EV> get() { return {{"En239_A", uint64_t(En239::En239_A)}, {"En239_AB", uint64_t(En239::En239_AB)}, {"En239_Ba", uint64_t(En239::En239_Ba)}}; } };
template <> struct EnumOf<En240> { typedef En240_Cls C; static const char *name() { return "En240"; } static std::vector<EV> get() { return {{"En240_A", uint64_t(En240::En240_A)}, {"En240_AB", uint64_t(En240::En240_AB)}, {"En240_Ba", uint64_t(En240::En240_Ba)}}; } };
template <> struct EnumOf<En241> { typedef En241_Cls C; static const char *name() { return "En241"; } static std::vector<EV> get() { return {{"En241_A", uint64_t(En241::En241_A)}, {"En241_AB", uint64_t(En241::En241_AB)}, {"En241_Ba", uint64_t(En241::En241_Ba)}}; } };
template <> struct EnumOf<En242> { typedef En242_Cls C; static const char *name() { return "En242"; } static std::vector<EV> get() { return {{"En242_A", uint64_t(En242::En242_A)}, {"En242_AB", uint64_t(En242::En242_AB)}, {"En242_Ba", uint64_t(En242::En242_Ba)}}; } };
template <> struct EnumOf<En243> { typedef En243_Cls C; static const char *name() { return "En243"; } static std::vector<EV> get() { return {{"En243_A", uint64_t(En243::En243_A)}, {"En243_AB", uint64_t(En243::En243_AB)}, {"En243_Ba", uint64_t(En243::En243_Ba)}}; } };
template <> struct EnumOf<En244> { typedef En244_Cls C; static const char *name() { return "En244"; } static std::vector<EV> get() { return {{"En244_A", uint64_t(En244::En244_A)}, {"En244_AB", uint64_t(En244::En244_AB)}, {"En244_Ba", uint64_t(En244::En244_Ba)}}; } };
template <> struct EnumOf<En245> { typedef En245_Cls C; static const char *name() { return "En245"; } static std::vector<EV> get() { return {{"En245_A", uint64_t(En245::En245_A)}, {"En245_AB", uint64_t(En245::En245_AB)}, {"En245_Ba", uint64_t(En245::En245_Ba)}}; } };
template <> struct EnumOf<En246> { typedef En246_Cls C; static const char *name() { return "En246"; } static std::vector<EV> get() { return {{"En246_A", uint64_t(En246::En246_A)}, {"En246_AB", uint64_t(En246::En246_AB)}, {"En246_Ba", uint64_t(En246::En246_Ba)}}; } };
template <> struct EnumOf<En247> { typedef En247_Cls C; static const char *name() { return "En247"; } static std::vector<EV> get() { return {{"En247_A", uint64_t(En247::En247_A)}, {"En247_AB", uint64_t(En247::En247_AB)}, {"En247_Ba", uint64_t(En247::En247_Ba)}}; } };
template <> struct EnumOf<En248> { typedef En248_Cls C; static const char *name() { return "En248"; } static std::vector<EV> get() { return {{"En248_A", uint64_t(En248::En248_A)}, {"En248_AB", uint64_t(En248::En248_AB)}, {"En248_Ba", uint64_t(En248::En248_Ba)}}; } };
template <> struct EnumOf<En249> { typedef En249_Cls C; static const char *name() { return "En249"; } static std::vector<EV> get() { return {{"En249_A", uint64_t(En249::En249_A)}, {"En249_AB", uint64_t(En249::En249_AB)}, {"En249_Ba", uint64_t(En249::En249_Ba)}}; } };
template <> struct EnumOf<En250> { typedef En250_Cls C; static const char *name() { return "En250"; } static std::vector<EV> get() { return {{"En250_A", uint64_t(En250::En250_A)}, {"En250_AB", uint64_t(En250::En250_AB)}, {"En250_Ba", uint64_t(En250::En250_Ba)}}; } };
template <> struct EnumOf<En251> { typedef En251_Cls C; static const char *name() { return "En251"; } static std::vector<EV> get() { return {{"En251_A", uint64_t(En251::En251_A)}, {"En251_AB", uint64_t(En251::En251_AB)}, {"En251_Ba", uint64_t(En251::En251_Ba)}}; } };
template <> struct EnumOf<En252> { typedef En252_Cls C; static const char *name() { return "En252"; } static std::vector<EV> get() { return {{"En252_A", uint64_t(En252::En252_A)}, {"En252_AB", uint64_t(En252::En252_AB)}, {"En252_Ba", uint64_t(En252::En252_Ba)}}; } };
template <> struct EnumOf<En253> { typedef En253_Cls C; static const char *name() { return "En253"; } static std::vector<EV> get() { return {{"En253_A", uint64_t(En253::En253_A)}, {"En253_AB", uint64_t(En253::En253_AB)}, {"En253_Ba", uint64_t(En253::En253_Ba)}}; } };
template <> struct EnumOf<En254> { typedef En254_Cls C; static const char *name() { return "En254"; } static std::vector<EV> get() { return {{"En254_A", uint64_t(En254::En254_A)}, {"En254_AB", uint64_t(En254::En254_AB)}, {"En254_Ba", uint64_t(En254::En254_Ba)}}; } };
template <> struct EnumOf<En255> { typedef En255_Cls C; static const char *name() { return "En255"; } static std::vector<EV> get() { return {{"En255_A", uint64_t(En255::En255_A)}, {"En255_AB", uint64_t(En255::En255_AB)}, {"En255_Ba", uint64_t(En255::En255_Ba)}}; } };
template <> struct EnumOf<En256> { typedef En256_Cls C; static const char *name() { return "En256"; } static std::vector<EV> get() { return {{"En256_A", uint64_t(En256::En256_A)}, {"En256_AB", uint64_t(En256::En256_AB)}, {"En256_Ba", uint64_t(En256::En256_Ba)}}; } };
template <> struct EnumOf<En257> { typedef En257_Cls C; static const char *name() { return "En257"; } static std::vector<EV> get() { return {{"En257_A", uint64_t(En257::En257_A)}, {"En257_AB", uint64_t(En257::En257_AB)}, {"En257_Ba", uint64_t(En257::En257_Ba)}}; } };
template <> struct EnumOf<En258> { typedef En258_Cls C; static const char *name() { return "En258"; } static std::vector<EV> get() { return {{"En258_A", uint64_t(En258::En258_A)}, {"En258_AB", uint64_t(En258::En258_AB)}, {"En258_Ba", uint64_t(En258::En258_Ba)}}; } };
template <> struct EnumOf<En259> { typedef En259_Cls C; static const char *name() { return "En259"; } static std::vector<EV> get() { return {{"En259_A", uint64_t(En259::En259_A)}, {"En259_AB", uint64_t(En259::En259_AB)}, {"En259_Ba", uint64_t(En259::En259_Ba)}}; } };
template <> struct EnumOf<En260> { typedef En260_Cls C; static const char *name() { return "En260"; } static std::vector<EV> get() { return {{"En260_A", uint64_t(En260::En260_A)}, {"En260_AB", uint64_t(En260::En260_AB)}, {"En260_Ba", uint64_t(En260::En260_Ba)}}; } };
template <> struct EnumOf<En261> { typedef En261_Cls C; static const char *name() { return "En261"; } static std::vector<EV> get() { return {{"En261_A", uint64_t(En261::En261_A)}, {"En261_AB", uint64_t(En261::En261_AB)}, {"En261_Ba", uint64_t(En261::En261_Ba)}}; } };
template <> struct EnumOf<En262> { typedef En262_Cls C; static const char *name() { return "En262"; } static std::vector<EV> get() { return {{"En262_A", uint64_t(En262::En262_A)}, {"En262_AB", uint64_t(En262::En262_AB)}, {"En262_Ba", uint64_t(En262::En262_Ba)}}; } };
template <> struct EnumOf<En263> { typedef En263_Cls C; static const char *name() { return "En263"; } static std::vector<EV> get() { return {{"En263_A", uint64_t(En263::En263_A)}, {"En263_AB", uint64_t(En263::En263_AB)}, {"En263_Ba", uint64_t(En263::En263_Ba)}}; } };
template <> struct EnumOf<En264> { typedef En264_Cls C; static const char *name() { return "En264"; } static std::vector<EV> get() { return {{"En264_A", uint64_t(En264::En264_A)}, {"En264_AB", uint64_t(En264::En264_AB)}, {"En264_Ba", uint64_t(En264::En264_Ba)}}; } };
template <> struct EnumOf<En265> { typedef En265_Cls C; static const char *name() { return "En265"; } static std::vector<EV> get() { return {{"En265_A", uint64_t(En265::En265_A)}, {"En265_AB", uint64_t(En265::En265_AB)}, {"En265_Ba", uint64_t(En265::En265_Ba)}}; } };
template <> struct EnumOf<En266> { typedef En266_Cls C; static const char *name() { return "En266"; } static std::vector<EV> get() { return {{"En266_A", uint64_t(En266::En266_A)}, {"En266_AB", uint64_t(En266::En266_AB)}, {"En266_Ba", uint64_t(En266::En266_Ba)}}; } };
template <> struct EnumOf<En267> { typedef En267_Cls C; static const char *name() { return "En267"; } static std::vector<EV> get() { return {{"En267_A", uint64_t(En267::En267_A)}, {"En267_AB", uint64_t(En267::En267_AB)}, {"En267_Ba", uint64_t(En267::En267_Ba)}}; } };
template <> struct EnumOf<En268> { typedef En268_Cls C; static const char *name() { return "En268"; } static std::vector<EV> get() { return {{"En268_A", uint64_t(En268::En268_A)}, {"En268_AB", uint64_t(En268::En268_AB)}, {"En268_Ba", uint64_t(En268::En268_Ba)}}; } };
template <> struct EnumOf<En269> { typedef En269_Cls C; static const char *name() { return "En269"; } static std::vector<EV> get() { return {{"En269_A", uint64_t(En269::En269_A)}, {"En269_AB", uint64_t(En269::En269_AB)}, {"En269_Ba", uint64_t(En269::En269_Ba)}}; } };
template <> struct EnumOf<En270> { typedef En270_Cls C; static const char *name() { return "En270"; } static std::vector<EV> get() { return {{"En270_A", uint64_t(En270::En270_A)}, {"En270_AB", uint64_t(En270::En270_AB)}, {"En270_Ba", uint64_t(En270::En270_Ba)}}; } };
template <> struct EnumOf<En271> { typedef En271_Cls C; static const char *name() { return "En271"; } static std::vector<EV> get() { return {{"En271_A", uint64_t(En271::En271_A)}, {"En271_AB", uint64_t(En271::En271_AB)}, {"En271_Ba", uint64_t(En271::En271_Ba)}}; } };
template <> struct EnumOf<En272> { typedef En272_Cls C; static const char *name() { return "En272"; } static std::vector<EV> get() { return {{"En272_A", uint64_t(En272::En272_A)}, {"En272_AB", uint64_t(En272::En272_AB)}, {"En272_Ba", uint64_t(En272::En272_Ba)}}; } };
template <> struct EnumOf<En273> { typedef En273_Cls C; static const char *name() { return "En273"; } static std::vector<EV> get() { return {{"En273_A", uint64_t(En273::En273_A)}, {"En273_AB", uint64_t(En273::En273_AB)}, {"En273_Ba", uint64_t(En273::En273_Ba)}}; } };
template <> struct EnumOf<En274> { typedef En274_Cls C; static const char *name() { return "En274"; } static std::vector<EV> get() { return {{"En274_A", uint64_t(En274::En274_A)}, {"En274_AB", uint64_t(En274::En274_AB)}, {"En274_Ba", uint64_t(En274::En274_Ba)}}; } };
template <> struct EnumOf<En275> { typedef En275_Cls C; static const char *name() { return "En275"; } static std::vector<EV> get() { return {{"En275_A", uint64_t(En275::En275_A)}, {"En275_AB", uint64_t(En275::En275_AB)}, {"En275_Ba", uint64_t(En275::En275_Ba)}}; } };
template <> struct EnumOf<En276> { typedef En276_Cls C; static const char *name() { return "En276"; } static std::vector<EV> get() { return {{"En276_A", uint64_t(En276::En276_A)}, {"En276_AB", uint64_t(En276::En276_AB)}, {"En276_Ba", uint64_t(En276::En276_Ba)}}; } };
template <> struct EnumOf<En277> { typedef En277_Cls C; static const char *name() { return "En277"; } static std::vector<EV> get() { return {{"En277_A", uint64_t(En277::En277_A)}, {"En277_AB", uint64_t(En277::En277_AB)}, {"En277_Ba", uint64_t(En277::En277_Ba)}}; } };
template <> struct EnumOf<En278> { typedef En278_Cls C; static const char *name() { return "En278"; } static std::vector<EV> get() { return {{"En278_A", uint64_t(En278::En278_A)}, {"En278_AB", uint64_t(En278::En278_AB)}, {"En278_Ba", uint64_t(En278::En278_Ba)}}; } };
template <> struct EnumOf<En279> { typedef En279_Cls C; static const char *name() { return "En279"; } static std::vector<EV> get() { return {{"En279_A", uint64_t(En279::En279_A)}, {"En279_AB", uint64_t(En279::En279_AB)}, {"En279_Ba", uint64_t(En279::En279_Ba)}}; } };
template <> struct EnumOf<En280> { typedef En280_Cls C; static const char *name() { return "En280"; } static std::vector<EV> get() { return {{"En280_A", uint64_t(En280::En280_A)}, {"En280_AB", uint64_t(En280::En280_AB)}, {"En280_Ba", uint64_t(En280::En280_Ba)}}; } };
template <> struct EnumOf<En281> { typedef En281_Cls C; static const char *name() { return "En281"; } static std::vector<EV> get() { return {{"En281_A", uint64_t(En281::En281_A)}, {"En281_AB", uint64_t(En281::En281_AB)}, {"En281_Ba", uint64_t(En281::En281_Ba)}}; } };
template <> struct EnumOf<En282> { typedef En282_Cls C; static const char *name() { return "En282"; } static std::vector<EV> get() { return {{"En282_A", uint64_t(En282::En282_A)}, {"En282_AB", uint64_t(En282::En282_AB)}, {"En282_Ba", uint64_t(En282::En282_Ba)}}; } };
template <> struct EnumOf<En283> { typedef En283_Cls C; static const char *name() { return "En283"; } static std::vector<EV> get() { return {{"En283_A", uint64_t(En283::En283_A)}, {"En283_AB", uint64_t(En283::En283_AB)}, {"En283_Ba", uint64_t(En283::En283_Ba)}}; } };
template <> struct EnumOf<En284> { typedef En284_Cls C; static const char *name() { return "En284"; } static std::vector<EV> get() { return {{"En284_A", uint64_t(En284::En284_A)}, {"En284_AB", uint64_t(En284::En284_AB)}, {"En284_Ba", uint64_t(En284::En284_Ba)}}; } };
template <> struct EnumOf<En285> { typedef En285_Cls C; static const char *name() { return "En285"; } static std::vector<EV> get() { return {{"En285_A", uint64_t(En285::En285_A)}, {"En285_AB", uint64_t(En285::En285_AB)}, {"En285_Ba", uint64_t(En285::En285_Ba)}}; } };
template <> struct EnumOf<En286> { typedef En286_Cls C; static const char *name() { return "En286"; } static std::vector<EV> get() { return {{"En286_A", uint64_t(En286::En286_A)}, {"En286_AB", uint64_t(En286::En286_AB)}, {"En286_Ba", uint64_t(En286::En286_Ba)}}; } };
template <> struct EnumOf<En287> { typedef En287_Cls C; static const char *name() { return "En287"; } static std::vector<EV> get() { return {{"En287_A", uint64_t(En287::En287_A)}, {"En287_AB", uint64_t(En287::En287_AB)}, {"En287_Ba", uint64_t(En287::En287_Ba)}}; } };
template <> struct EnumOf<En288> { typedef En288_Cls C; static const char *name() { return "En288"; } static std::vector<EV> get() { return {{"En288_A", uint64_t(En288::En288_A)}, {"En288_AB", uint64_t(En288::En288_AB)}, {"En288_Ba", uint64_t(En288::En288_Ba)}}; } };
template <> struct EnumOf<En289> { typedef En289_Cls C; static const char *name() { return "En289"; } static std::vector<EV> get() { return {{"En289_A", uint64_t(En289::En289_A)}, {"En289_AB", uint64_t(En289::En289_AB)}, {"En289_Ba", uint64_t(En289::En289_Ba)}}; } };
template <> struct EnumOf<En290> { typedef En290_Cls C; static const char *name() { return "En290"; } static std::vector<EV> get() { return {{"En290_A", uint64_t(En290::En290_A)}, {"En290_AB", uint64_t(En290::En290_AB)}, {"En290_Ba", uint64_t(En290::En290_Ba)}}; } };
template <> struct EnumOf<En291> { typedef En291_Cls C; static const char *name() { return "En291"; } static std::vector<EV> get() { return {{"En291_A", uint64_t(En291::En291_A)}, {"En291_AB", uint64_t(En291::En291_AB)}, {"En291_Ba", uint64_t(En291::En291_Ba)}}; } };
template <> struct EnumOf<En292> { typedef En292_Cls C; static const char *name() { return "En292"; } static std::vector<EV> get() { return {{"En292_A", uint64_t(En292::En292_A)}, {"En292_AB", uint64_t(En292::En292_AB)}, {"En292_Ba", uint64_t(En292::En292_Ba)}}; } };
template <> struct EnumOf<En293> { typedef En293_Cls C; static const char *name() { return "En293"; } static std::vector<EV> get() { return {{"En293_A", uint64_t(En293::En293_A)}, {"En293_AB", uint64_t(En293::En293_AB)}, {"En293_Ba", uint64_t(En293::En293_Ba)}}; } };
template <> struct EnumOf<En294> { typedef En294_Cls C; static const char *name() { return "En294"; } static std::vector<EV> get() { return {{"En294_A", uint64_t(En294::En294_A)}, {"En294_AB", uint64_t(En294::En294_AB)}, {"En294_Ba", uint64_t(En294::En294_Ba)}}; } };
template <> struct EnumOf<En295> { typedef En295_Cls C; static const char *name() { return "En295"; } static std::vector<EV> get() { return {{"En295_A", uint64_t(En295::En295_A)}, {"En295_AB", uint64_t(En295::En295_AB)}, {"En295_Ba", uint64_t(En295::En295_Ba)}}; } };
template <> struct EnumOf<En296> { typedef En296_Cls C; static const char *name() { return "En296"; } static std::vector<EV> get() { return {{"En296_A", uint64_t(En296::En296_A)}, {"En296_AB", uint64_t(En296::En296_AB)}, {"En296_Ba", uint64_t(En296::En296_Ba)}}; } };
template <> struct EnumOf<En297> { typedef En297_Cls C; static const char *name() { return "En297"; } static std::vector<EV> get() { return {{"En297_A", uint64_t(En297::En297_A)}, {"En297_AB", uint64_t(En297::En297_AB)}, {"En297_Ba", uint64_t(En297::En297_Ba)}}; } };
template <> struct EnumOf<En298> { typedef En298_Cls C; static const char *name() { return "En298"; } static std::vector<EV> get() { return {{"En298_A", uint64_t(En298::En298_A)}, {"En298_AB", uint64_t(En298::En298_AB)}, {"En298_Ba", uint64_t(En298::En298_Ba)}}; } };
template <> struct EnumOf<En299> { typedef En299_Cls C; static const char *name() { return "En299"; } static std::vector<EV> get() { return {{"En299_A", uint64_t(En299::En299_A)}, {"En299_AB", uint64_t(En299::En299_AB)}, {"En299_Ba", uint64_t(En299::En299_Ba)}}; } };
template <> struct EnumOf<En300> { typedef En300_Cls C; static const char *name() { return "En300"; } static std::vector<EV> get() { return {{"En300_A", uint64_t(En300::En300_A)}, {"En300_AB", uint64_t(En300::En300_AB)}, {"En300_Ba", uint64_t(En300::En300_Ba)}}; } };
template <> struct EnumOf<En301> { typedef En301_Cls C; static const char *name() { return "En301"; } static std::vector<EV> get() { return {{"En301_A", uint64_t(En301::En301_A)}, {"En301_AB", uint64_t(En301::En301_AB)}, {"En301_Ba", uint64_t(En301::En301_Ba)}}; } };
template <> struct EnumOf<En302> { typedef En302_Cls C; static const char *name() { return "En302"; } static std::vector<EV> get() { return {{"En302_A", uint64_t(En302::En302_A)}, {"En302_AB", uint64_t(En302::En302_AB)}, {"En302_Ba", uint64_t(En302::En302_Ba)}}; } };
template <> struct EnumOf<En303> { typedef En303_Cls C; static const char *name() { return "En303"; } static std::vector<EV> get() { return {{"En303_A", uint64_t(En303::En303_A)}, {"En303_AB", uint64_t(En303::En303_AB)}, {"En303_Ba", uint64_t(En303::En303_Ba)}}; } };
template <> struct EnumOf<En304> { typedef En304_Cls C; static const char *name() { return "En304"; } static std::vector<EV> get() { return {{"En304_A", uint64_t(En304::En304_A)}, {"En304_AB", uint64_t(En304::En304_AB)}, {"En304_Ba", uint64_t(En304::En304_Ba)}}; } };
template <> struct EnumOf<En305> { typedef En305_Cls C; static const char *name() { return "En305"; } static std::vector<EV> get() { return {{"En305_A", uint64_t(En305::En305_A)}, {"En305_AB", uint64_t(En305::En305_AB)}, {"En305_Ba", uint64_t(En305::En305_Ba)}}; } };
template <> struct EnumOf<En306> { typedef En306_Cls C; static const char *name() { return "En306"; } static std::vector<EV> get() { return {{"En306_A", uint64_t(En306::En306_A)}, {"En306_AB", uint64_t(En306::En306_AB)}, {"En306_Ba", uint64_t(En306::En306_Ba)}}; } };
template <> struct EnumOf<En307> { typedef En307_Cls C; static const char *name() { return "En307"; } static std::vector<EV> get() { return {{"En307_A", uint64_t(En307::En307_A)}, {"En307_AB", uint64_t(En307::En307_AB)}, {"En307_Ba", uint64_t(En307::En307_Ba)}}; } };
template <> struct EnumOf<En308> { typedef En308_Cls C; static const char *name() { return "En308"; } static std::vector<EV> get() { return {{"En308_A", uint64_t(En308::En308_A)}, {"En308_AB", uint64_t(En308::En308_AB)}, {"En308_Ba", uint64_t(En308::En308_Ba)}}; } };
template <> struct EnumOf<En309> { typedef En309_Cls C; static const char *name() { return "En309"; } static std::vector<EV> get() { return {{"En309_A", uint64_t(En309::En309_A)}, {"En309_AB", uint64_t(En309::En309_AB)}, {"En309_Ba", uint64_t(En309::En309_Ba)}}; } };
template <> struct EnumOf<En310> { typedef En310_Cls C; static const char *name() { return "En310"; } static std::vector<EV> get() { return {{"En310_A", uint64_t(En310::En310_A)}, {"En310_AB", uint64_t(En310::En310_AB)}, {"En310_Ba", uint64_t(En310::En310_Ba)}}; } };
template <> struct EnumOf<En311> { typedef En311_Cls C; static const char *name() { return "En311"; } static std::vector<EV> get() { return {{"En311_A", uint64_t(En311::En311_A)}, {"En311_AB", uint64_t(En311::En311_AB)}, {"En311_Ba", uint64_t(En311::En311_Ba)}}; } };
template <> struct EnumOf<En312> { typedef En312_Cls C; static const char *name() { return "En312"; } static std::vector<EV> get() { return {{"En312_A", uint64_t(En312::En312_A)}, {"En312_AB", uint64_t(En312::En312_AB)}, {"En312_Ba", uint64_t(En312::En312_Ba)}}; } };
template <> struct EnumOf<En313> { typedef En313_Cls C; static const char *name() { return "En313"; } static std::vector<EV> get() { return {{"En313_A", uint64_t(En313::En313_A)}, {"En313_AB", uint64_t(En313::En313_AB)}, {"En313_Ba", uint64_t(En313::En313_Ba)}}; } };
template <> struct EnumOf<En314> { typedef En314_Cls C; static const char *name() { return "En314"; } static std::vector<EV> get() { return {{"En314_A", uint64_t(En314::En314_A)}, {"En314_AB", uint64_t(En314::En314_AB)}, {"En314_Ba", uint64_t(En314::En314_Ba)}}; } };
template <> struct EnumOf<En315> { typedef En315_Cls C; static const char *name() { return "En315"; } static std::vector<EV> get() { return {{"En315_A", uint64_t(En315::En315_A)}, {"En315_AB", uint64_t(En315::En315_AB)}, {"En315_Ba", uint64_t(En315::En315_Ba)}}; } };
template <> struct EnumOf<En316> { typedef En316_Cls C; static const char *name() { return "En316"; } static std::vector<EV> get() { return {{"En316_A", uint64_t(En316::En316_A)}, {"En316_AB", uint64_t(En316::En316_AB)}, {"En316_Ba", uint64_t(En316::En316_Ba)}}; } };
template <> struct EnumOf<En317> { typedef En317_Cls C; static const char *name() { return "En317"; } static std::vector<EV> get() { return {{"En317_A", uint64_t(En317::En317_A)}, {"En317_AB", uint64_t(En317::En317_AB)}, {"En317_Ba", uint64_t(En317::En317_Ba)}}; } };
template <> struct EnumOf<En318> { typedef En318_Cls C; static const char *name() { return "En318"; } static std::vector<EV> get() { return {{"En318_A", uint64_t(En318::En318_A)}, {"En318_AB", uint64_t(En318::En318_AB)}, {"En318_Ba", uint64_t(En318::En318_Ba)}}; } };
template <> struct EnumOf<En319> { typedef En319_Cls C; static const char *name() { return "En319"; } static std::vector<EV> get() { return {{"En319_A", uint64_t(En319::En319_A)}, {"En319_AB", uint64_t(En319::En319_AB)}, {"En319_Ba", uint64_t(En319::En319_Ba)}}; } };
template <> struct EnumOf<En320> { typedef En320_Cls C; static const char *name() { return "En320"; } static std::vector<EV> get() { return {{"En320_A", uint64_t(En320::En320_A)}, {"En320_AB", uint64_t(En320::En320_AB)}, {"En320_Ba", uint64_t(En320::En320_Ba)}}; } };
template <> struct EnumOf<En321> { typedef En321_Cls C; static const char *name() { return "En321"; } static std::vector<EV> get() { return {{"En321_A", uint64_t(En321::En321_A)}, {"En321_AB", uint64_t(En321::En321_AB)}, {"En321_Ba", uint64_t(En321::En321_Ba)}}; } };
template <> struct EnumOf<En322> { typedef En322_Cls C; static const char *name() { return "En322"; } static std::vector<EV> get() { return {{"En322_A", uint64_t(En322::En322_A)}, {"En322_AB", uint64_t(En322::En322_AB)}, {"En322_Ba", uint64_t(En322::En322_Ba)}}; } };
template <> struct EnumOf<En323> { typedef En323_Cls C; static const char *name() { return "En323"; } static std::vector<EV> get() { return {{"En323_A", uint64_t(En323::En323_A)}, {"En323_AB", uint64_t(En323::En323_AB)}, {"En323_Ba", uint64_t(En323::En323_Ba)}}; } };
template <> struct EnumOf<En324> { typedef En324_Cls C; static const char *name() { return "En324"; } static std::vector<EV> get() { return {{"En324_A", uint64_t(En324::En324_A)}, {"En324_AB", uint64_t(En324::En324_AB)}, {"En324_Ba", uint64_t(En324::En324_Ba)}}; } };
template <> struct EnumOf<En325> { typedef En325_Cls C; static const char *name() { return "En325"; } static std::vector<EV> get() { return {{"En325_A", uint64_t(En325::En325_A)}, {"En325_AB", uint64_t(En325::En325_AB)}, {"En325_Ba", uint64_t(En325::En325_Ba)}}; } };
template <> struct EnumOf<En326> { typedef En326_Cls C; static const char *name() { return "En326"; } static std::vector<EV> get() { return {{"En326_A", uint64_t(En326::En326_A)}, {"En326_AB", uint64_t(En326::En326_AB)}, {"En326_Ba", uint64_t(En326::En326_Ba)}}; } };
template <> struct EnumOf<En327> { typedef En327_Cls C; static const char *name() { return "En327"; } static std::vector<EV> get() { return {{"En327_A", uint64_t(En327::En327_A)}, {"En327_AB", uint64_t(En327::En327_AB)}, {"En327_Ba", uint64_t(En327::En327_Ba)}}; } };
template <> struct EnumOf<En328> { typedef En328_Cls C; static const char *name() { return "En328"; } static std::vector<EV> get() { return {{"En328_A", uint64_t(En328::En328_A)}, {"En328_AB", uint64_t(En328::En328_AB)}, {"En328_Ba", uint64_t(En328::En328_Ba)}}; } };
template <> struct EnumOf<En329> { typedef En329_Cls C; static const char *name() { return "En329"; } static std::vector<EV> get() { return {{"En329_A", uint64_t(En329::En329_A)}, {"En329_AB", uint64_t(En329::En329_AB)}, {"En329_Ba", uint64_t(En329::En329_Ba)}}; } };
template <> struct EnumOf<En330> { typedef En330_Cls C; static const char *name() { return "En330"; } static std::vector<EV> get() { return {{"En330_A", uint64_t(En330::En330_A)}, {"En330_AB", uint64_t(En330::En330_AB)}, {"En330_Ba", uint64_t(En330::En330_Ba)}}; } };
template <> struct EnumOf<En331> { typedef En331_Cls C; static const char *name() { return "En331"; } static std::vector<EV> get() { return {{"En331_A", uint64_t(En331::En331_A)}, {"En331_AB", uint64_t(En331::En331_AB)}, {"En331_Ba", uint64_t(En331::En331_Ba)}}; } };
template <> struct EnumOf<En332> { typedef En332_Cls C; static const char *name() { return "En332"; } static std::vector<EV> get() { return {{"En332_A", uint64_t(En332::En332_A)}, {"En332_AB", uint64_t(En332::En332_AB)}, {"En332_Ba", uint64_t(En332::En332_Ba)}}; } };
template <> struct EnumOf<En333> { typedef En333_Cls C; static const char *name() { return "En333"; } static std::vector<EV> get() { return {{"En333_A", uint64_t(En333::En333_A)}, {"En333_AB", uint64_t(En333::En333_AB)}, {"En333_Ba", uint64_t(En333::En333_Ba)}}; } };
template <> struct EnumOf<En334> { typedef En334_Cls C; static const char *name() { return "En334"; } static std::vector<EV> get() { return {{"En334_A", uint64_t(En334::En334_A)}, {"En334_AB", uint64_t(En334::En334_AB)}, {"En334_Ba", uint64_t(En334::En334_Ba)}}; } };
template <> struct EnumOf<En335> { typedef En335_Cls C; static const char *name() { return "En335"; } static std::vector<EV> get() { return {{"En335_A", uint64_t(En335::En335_A)}, {"En335_AB", uint64_t(En335::En335_AB)}, {"En335_Ba", uint64_t(En335::En335_Ba)}}; } };
template <> struct EnumOf<En336> { typedef En336_Cls C; static const char *name() { return "En336"; } static std::vector<EV> get() { return {{"En336_A", uint64_t(En336::En336_A)}, {"En336_AB", uint64_t(En336::En336_AB)}, {"En336_Ba", uint64_t(En336::En336_Ba)}}; } };
template <> struct EnumOf<En337> { typedef En337_Cls C; static const char *name() { return "En337"; } static std::vector<EV> get() { return {{"En337_A", uint64_t(En337::En337_A)}, {"En337_AB", uint64_t(En337::En337_AB)}, {"En337_Ba", uint64_t(En337::En337_Ba)}}; } };
template <> struct EnumOf<En338> { typedef En338_Cls C; static const char *name() { return "En338"; } static std::vector<EV> get() { return {{"En338_A", uint64_t(En338::En338_A)}, {"En338_AB", uint64_t(En338::En338_AB)}, {"En338_Ba", uint64_t(En338::En338_Ba)}}; } };
template <> struct EnumOf<En339> { typedef En339_Cls C; static const char *name() { return "En339"; } static std::vector<EV> get() { return {{"En339_A", uint64_t(En339::En339_A)}, {"En339_AB", uint64_t(En339::En339_AB)}, {"En339_Ba", uint64_t(En339::En339_Ba)}}; } };
template <> struct EnumOf<En340> { typedef En340_Cls C; static const char *name() { return "En340"; } static std::vector<EV> get() { return {{"En340_A", uint64_t(En340::En340_A)}, {"En340_AB", uint64_t(En340::En340_AB)}, {"En340_Ba", uint64_t(En340::En340_Ba)}}; } };
template <> struct EnumOf<En341> { typedef En341_Cls C; static const char *name() { return "En341"; } static std::vector<EV> get() { return {{"En341_A", uint64_t(En341::En341_A)}, {"En341_AB", uint64_t(En341::En341_AB)}, {"En341_Ba", uint64_t(En341::En341_Ba)}}; } };
template <> struct EnumOf<En342> { typedef En342_Cls C; static const char *name() { return "En342"; } static std::vector<EV> get() { return {{"En342_A", uint64_t(En342::En342_A)}, {"En342_AB", uint64_t(En342::En342_AB)}, {"En342_Ba", uint64_t(En342::En342_Ba)}}; } };
template <> struct EnumOf<En343> { typedef En343_Cls C; static const char *name() { return "En343"; } static std::vector<EV> get() { return {{"En343_A", uint64_t(En343::En343_A)}, {"En343_AB", uint64_t(En343::En343_AB)}, {"En343_Ba", uint64_t(En343::En343_Ba)}}; } };
template <> struct EnumOf<En344> { typedef En344_Cls C; static const char *name() { return "En344"; } static std::vector<EV> get() { return {{"En344_A", uint64_t(En344::En344_A)}, {"En344_AB", uint64_t(En344::En344_AB)}, {"En344_Ba", uint64_t(En344::En344_Ba)}}; } };
template <> struct EnumOf<En345> { typedef En345_Cls C; static const char *name() { return "En345"; } static std::vector<EV> get() { return {{"En345_A", uint64_t(En345::En345_A)}, {"En345_AB", uint64_t(En345::En345_AB)}, {"En345_Ba", uint64_t(En345::En345_Ba)}}; } };
template <> struct EnumOf<En346> { typedef En346_Cls C; static const char *name() { return "En346"; } static std::vector<EV> get() { return {{"En346_A", uint64_t(En346::En346_A)}, {"En346_AB", uint64_t(En346::En346_AB)}, {"En346_Ba", uint64_t(En346::En346_Ba)}}; } };
template <> struct EnumOf<En347> { typedef En347_Cls C; static const char *name() { return "En347"; } static std::vector<EV> get() { return {{"En347_A", uint64_t(En347::En347_A)}, {"En347_AB", uint64_t(En347::En347_AB)}, {"En347_Ba", uint64_t(En347::En347_Ba)}}; } };
template <> struct EnumOf<En348> { typedef En348_Cls C; static const char *name() { return "En348"; } static std::vector<EV> get() { return {{"En348_A", uint64_t(En348::En348_A)}, {"En348_AB", uint64_t(En348::En348_AB)}, {"En348_Ba", uint64_t(En348::En348_Ba)}}; } };
template <> struct EnumOf<En349> { typedef En349_Cls C; static const char *name() { return "En349"; } static std::vector<EV> get() { return {{"En349_A", uint64_t(En349::En349_A)}, {"En349_AB", uint64_t(En349::En349_AB)}, {"En349_Ba", uint64_t(En349::En349_Ba)}}; } };
template <> struct EnumOf<En350> { typedef En350_Cls C; static const char *name() { return "En350"; } static std::vector<EV> get() { return {{"En350_A", uint64_t(En350::En350_A)}, {"En350_AB", uint64_t(En350::En350_AB)}, {"En350_Ba", uint64_t(En350::En350_Ba)}}; } };
template <> struct EnumOf<En351> { typedef En351_Cls C; static const char *name() { return "En351"; } static std::vector<EV> get() { return {{"En351_A", uint64_t(En351::En351_A)}, {"En351_AB", uint64_t(En351::En351_AB)}, {"En351_Ba", uint64_t(En351::En351_Ba)}}; } };
template <> struct EnumOf<En352> { typedef En352_Cls C; static const char *name() { return "En352"; } static std::vector<EV> get() { return {{"En352_A", uint64_t(En352::En352_A)}, {"En352_AB", uint64_t(En352::En352_AB)}, {"En352_Ba", uint64_t(En352::En352_Ba)}}; } };
template <> struct EnumOf<En353> { typedef En353_Cls C; static const char *name() { return "En353"; } static std::vector<EV> get() { return {{"En353_A", uint64_t(En353::En353_A)}, {"En353_AB", uint64_t(En353::En353_AB)}, {"En353_Ba", uint64_t(En353::En353_Ba)}}; } };
template <> struct EnumOf<En354> { typedef En354_Cls C; static const char *name() { return "En354"; } static std::vector<EV> get() { return {{"En354_A", uint64_t(En354::En354_A)}, {"En354_AB", uint64_t(En354::En354_AB)}, {"En354_Ba", uint64_t(En354::En354_Ba)}}; } };
template <> struct EnumOf<En355> { typedef En355_Cls C; static const char *name() { return "En355"; } static std::vector<EV> get() { return {{"En355_A", uint64_t(En355::En355_A)}, {"En355_AB", uint64_t(En355::En355_AB)}, {"En355_Ba", uint64_t(En355::En355_Ba)}}; } };
template <> struct EnumOf<En356> { typedef En356_Cls C; static const char *name() { return "En356"; } static std::vector<EV> get() { return {{"En356_A", uint64_t(En356::En356_A)}, {"En356_AB", uint64_t(En356::En356_AB)}, {"En356_Ba", uint64_t(En356::En356_Ba)}}; } };
template <> struct EnumOf<En357> { typedef En357_Cls C; static const char *name() { return "En357"; } static std::vector<EV> get() { return {{"En357_A", uint64_t(En357::En357_A)}, {"En357_AB", uint64_t(En357::En357_AB)}, {"En357_Ba", uint64_t(En357::En357_Ba)}}; } };
template <> struct EnumOf<En358> { typedef En358_Cls C; static const char *name() { return "En358"; } static std::vector<EV> get() { return {{"En358_A", uint64_t(En358::En358_A)}, {"En358_AB", uint64_t(En358::En358_AB)}, {"En358_Ba", uint64_t(En358::En358_Ba)}}; } };
template <> struct EnumOf<En359> { typedef En359_Cls C; static const char *name() { return "En359"; } static std::vector<EV> get() { return {{"En359_A", uint64_t(En359::En359_A)}, {"En359_AB", uint64_t(En359::En359_AB)}, {"En359_Ba", uint64_t(En359::En359_Ba)}}; } };
template <> struct EnumOf<En360> { typedef En360_Cls C; static const char *name() { return "En360"; } static std::vector<EV> get() { return {{"En360_A", uint64_t(En360::En360_A)}, {"En360_AB", uint64_t(En360::En360_AB)}, {"En360_Ba", uint64_t(En360::En360_Ba)}}; } };
template <> struct EnumOf<En361> { typedef En361_Cls C; static const char *name() { return "En361"; } static std::vector<EV> get() { return {{"En361_A", uint64_t(En361::En361_A)}, {"En361_AB", uint64_t(En361::En361_AB)}, {"En361_Ba", uint64_t(En361::En361_Ba)}}; } };
template <> struct EnumOf<En362> { typedef En362_Cls C; static const char *name() { return "En362"; } static std::vector<EV> get() { return {{"En362_A", uint64_t(En362::En362_A)}, {"En362_AB", uint64_t(En362::En362_AB)}, {"En362_Ba", uint64_t(En362::En362_Ba)}}; } };
template <> struct EnumOf<En363> { typedef En363_Cls C; static const char *name() { return "En363"; } static std::vector<EV> get() { return {{"En363_A", uint64_t(En363::En363_A)}, {"En363_AB", uint64_t(En363::En363_AB)}, {"En363_Ba", uint64_t(En363::En363_Ba)}}; } };
template <> struct EnumOf<En364> { typedef En364_Cls C; static const char *name() { return "En364"; } static std::vector<EV> get() { return {{"En364_A", uint64_t(En364::En364_A)}, {"En364_AB", uint64_t(En364::En364_AB)}, {"En364_Ba", uint64_t(En364::En364_Ba)}}; } };
template <> struct EnumOf<En365> { typedef En365_Cls C; static const char *name() { return "En365"; } static std::vector<EV> get() { return {{"En365_A", uint64_t(En365::En365_A)}, {"En365_AB", uint64_t(En365::En365_AB)}, {"En365_Ba", uint64_t(En365::En365_Ba)}}; } };
template <> struct EnumOf<En366> { typedef En366_Cls C; static const char *name() { return "En366"; } static std::vector<EV> get() { return {{"En366_A", uint64_t(En366::En366_A)}, {"En366_AB", uint64_t(En366::En366_AB)}, {"En366_Ba", uint64_t(En366::En366_Ba)}}; } };
template <> struct EnumOf<En367> { typedef En367_Cls C; static const char *name() { return "En367"; } static std::vector<EV> get() { return {{"En367_A", uint64_t(En367::En367_A)}, {"En367_AB", uint64_t(En367::En367_AB)}, {"En367_Ba", uint64_t(En367::En367_Ba)}}; } };
template <> struct EnumOf<En368> { typedef En368_Cls C; static const char *name() { return "En368"; } static std::vector<EV> get() { return {{"En368_A", uint64_t(En368::En368_A)}, {"En368_AB", uint64_t(En368::En368_AB)}, {"En368_Ba", uint64_t(En368::En368_Ba)}}; } };
template <> struct EnumOf<En369> { typedef En369_Cls C; static const char *name() { return "En369"; } static std::vector<EV> get() { return {{"En369_A", uint64_t(En369::En369_A)}, {"En369_AB", uint64_t(En369::En369_AB)}, {"En369_Ba", uint64_t(En369::En369_Ba)}}; } };
template <> struct EnumOf<En370> { typedef En370_Cls C; static const char *name() { return "En370"; } static std::vector<EV> get() { return {{"En370_A", uint64_t(En370::En370_A)}, {"En370_AB", uint64_t(En370::En370_AB)}, {"En370_Ba", uint64_t(En370::En370_Ba)}}; } };
template <> struct EnumOf<En371> { typedef En371_Cls C; static const char *name() { return "En371"; } static std::vector<EV> get() { return {{"En371_A", uint64_t(En371::En371_A)}, {"En371_AB", uint64_t(En371::En371_AB)}, {"En371_Ba", uint64_t(En371::En371_Ba)}}; } };
template <> struct EnumOf<En372> { typedef En372_Cls C; static const char *name() { return "En372"; } static std::vector<EV> get() { return {{"En372_A", uint64_t(En372::En372_A)}, {"En372_AB", uint64_t(En372::En372_AB)}, {"En372_Ba", uint64_t(En372::En372_Ba)}}; } };
template <> struct EnumOf<En373> { typedef En373_Cls C; static const char *name() { return "En373"; } static std::vector<EV> get() { return {{"En373_A", uint64_t(En373::En373_A)}, {"En373_AB", uint64_t(En373::En373_AB)}, {"En373_Ba", uint64_t(En373::En373_Ba)}}; } };
template <> struct EnumOf<En374> { typedef En374_Cls C; static const char *name() { return "En374"; } static std::vector<EV> get() { return {{"En374_A", uint64_t(En374::En374_A)}, {"En374_AB", uint64_t(En374::En374_AB)}, {"En374_Ba", uint64_t(En374::En374_Ba)}}; } };
template <> struct EnumOf<En375> { typedef En375_Cls C; static const char *name() { return "En375"; } static std::vector<EV> get() { return {{"En375_A", uint64_t(En375::En375_A)}, {"En375_AB", uint64_t(En375::En375_AB)}, {"En375_Ba", uint64_t(En375::En375_Ba)}}; } };
template <> struct EnumOf<En376> { typedef En376_Cls C; static const char *name() { return "En376"; } static std::vector<EV> get() { return {{"En376_A", uint64_t(En376::En376_A)}, {"En376_AB", uint64_t(En376::En376_AB)}, {"En376_Ba", uint64_t(En376::En376_Ba)}}; } };
template <> struct EnumOf<En377> { typedef En377_Cls C; static const char *name() { return "En377"; } static std::vector<EV> get() { return {{"En377_A", uint64_t(En377::En377_A)}, {"En377_AB", uint64_t(En377::En377_AB)}, {"En377_Ba", uint64_t(En377::En377_Ba)}}; } };
template <> struct EnumOf<En378> { typedef En378_Cls C; static const char *name() { return "En378"; } static std::vector<EV> get() { return {{"En378_A", uint64_t(En378::En378_A)}, {"En378_AB", uint64_t(En378::En378_AB)}, {"En378_Ba", uint64_t(En378::En378_Ba)}}; } };
template <> struct EnumOf<En379> { typedef En379_Cls C; static const char *name() { return "En379"; } static std::vector<EV> get() { return {{"En379_A", uint64_t(En379::En379_A)}, {"En379_AB", uint64_t(En379::En379_AB)}, {"En379_Ba", uint64_t(En379::En379_Ba)}}; } };
template <> struct EnumOf<En380> { typedef En380_Cls C; static const char *name() { return "En380"; } static std::vector<EV> get() { return {{"En380_A", uint64_t(En380::En380_A)}, {"En380_AB", uint64_t(En380::En380_AB)}, {"En380_Ba", uint64_t(En380::En380_Ba)}}; } };
template <> struct EnumOf<En381> { typedef En381_Cls C; static const char *name() { return "En381"; } static std::vector<EV> get() { return {{"En381_A", uint64_t(En381::En381_A)}, {"En381_AB", uint64_t(En381::En381_AB)}, {"En381_Ba", uint64_t(En381::En381_Ba)}}; } };
template <> struct EnumOf<En382> { typedef En382_Cls C; static const char *name() { return "En382"; } static std::vector<EV> get() { return {{"En382_A", uint64_t(En382::En382_A)}, {"En382_AB", uint64_t(En382::En382_AB)}, {"En382_Ba", uint64_t(En382::En382_Ba)}}; } };
template <> struct EnumOf<En383> { typedef En383_Cls C; static const char *name() { return "En383"; } static std::vector<EV> get() { return {{"En383_A", uint64_t(En383::En383_A)}, {"En383_AB", uint64_t(En383::En383_AB)}, {"En383_Ba", uint64_t(En383::En383_Ba)}}; } };
template <> struct EnumOf<En384> { typedef En384_Cls C; static const char *name() { return "En384"; } static std::vector<EV> get() { return {{"En384_A", uint64_t(En384::En384_A)}, {"En384_AB", uint64_t(En384::En384_AB)}, {"En384_Ba", uint64_t(En384::En384_Ba)}}; } };
template <> struct EnumOf<En385> { typedef En385_Cls C; static const char *name() { return "En385"; } static std::vector<EV> get() { return {{"En385_A", uint64_t(En385::En385_A)}, {"En385_AB", uint64_t(En385::En385_AB)}, {"En385_Ba", uint64_t(En385::En385_Ba)}}; } };
template <> struct EnumOf<En386> { typedef En386_Cls C; static const char *name() { return "En386"; } static std::vector<EV> get() { return {{"En386_A", uint64_t(En386::En386_A)}, {"En386_AB", uint64_t(En386::En386_AB)}, {"En386_Ba", uint64_t(En386::En386_Ba)}}; } };
template <> struct EnumOf<En387> { typedef En387_Cls C; static const char *name() { return "En387"; } static std::vector<EV> get() { return {{"En387_A", uint64_t(En387::En387_A)}, {"En387_AB", uint64_t(En387::En387_AB)}, {"En387_Ba", uint64_t(En387::En387_Ba)}}; } };
template <> struct EnumOf<En388> { typedef En388_Cls C; static const char *name() { return "En388"; } static std::vector<EV> get() { return {{"En388_A", uint64_t(En388::En388_A)}, {"En388_AB", uint64_t(En388::En388_AB)}, {"En388_Ba", uint64_t(En388::En388_Ba)}}; } };
template <> struct EnumOf<En389> { typedef En389_Cls C; static const char *name() { return "En389"; } static std::vector<EV> get() { return {{"En389_A", uint64_t(En389::En389_A)}, {"En389_AB", uint64_t(En389::En389_AB)}, {"En389_Ba", uint64_t(En389::En389_Ba)}}; } };
template <> struct EnumOf<En390> { typedef En390_Cls C; static const char *name() { return "En390"; } static std::vector<EV> get() { return {{"En390_A", uint64_t(En390::En390_A)}, {"En390_AB", uint64_t(En390::En390_AB)}, {"En390_Ba", uint64_t(En390::En390_Ba)}}; } };
template <> struct EnumOf<En391> { typedef En391_Cls C; static const char *name() { return "En391"; } static std::vector<EV> get() { return {{"En391_A", uint64_t(En391::En391_A)}, {"En391_AB", uint64_t(En391::En391_AB)}, {"En391_Ba", uint64_t(En391::En391_Ba)}}; } };
template <> struct EnumOf<En392> { typedef En392_Cls C; static const char *name() { return "En392"; } static std::vector<EV> get() { return {{"En392_A", uint64_t(En392::En392_A)}, {"En392_AB", uint64_t(En392::En392_AB)}, {"En392_Ba", uint64_t(En392::En392_Ba)}}; } };
template <> struct EnumOf<En393> { typedef En393_Cls C; static const char *name() { return "En393"; } static std::vector<EV> get() { return {{"En393_A", uint64_t(En393::En393_A)}, {"En393_AB", uint64_t(En393::En393_AB)}, {"En393_Ba", uint64_t(En393::En393_Ba)}}; } };
template <> struct EnumOf<En394> { typedef En394_Cls C; static const char *name() { return "En394"; } static std::vector<EV> get() { return {{"En394_A", uint64_t(En394::En394_A)}, {"En394_AB", uint64_t(En394::En394_AB)}, {"En394_Ba", uint64_t(En394::En394_Ba)}}; } };
template <> struct EnumOf<En395> { typedef En395_Cls C; static const char *name() { return "En395"; } static std::vector<EV> get() { return {{"En395_A", uint64_t(En395::En395_A)}, {"En395_AB", uint64_t(En395::En395_AB)}, {"En395_Ba", uint64_t(En395::En395_Ba)}}; } };
template <> struct EnumOf<En396> { typedef En396_Cls C; static const char *name() { return "En396"; } static std::vector<EV> get() { return {{"En396_A", uint64_t(En396::En396_A)}, {"En396_AB", uint64_t(En396::En396_AB)}, {"En396_Ba", uint64_t(En396::En396_Ba)}}; } };
template <> struct EnumOf<En397> { typedef En397_Cls C; static const char *name() { return "En397"; } static std::vector<EV> get() { return {{"En397_A", uint64_t(En397::En397_A)}, {"En397_AB", uint64_t(En397::En397_AB)}, {"En397_Ba", uint64_t(En397::En397_Ba)}}; } };
template <> struct EnumOf<En398> { typedef En398_Cls C; static const char *name() { return "En398"; } static std::vector<EV> get() { return {{"En398_A", uint64_t(En398::En398_A)}, {"En398_AB", uint64_t(En398::En398_AB)}, {"En398_Ba", uint64_t(En398::En398_Ba)}}; } };
template <> struct EnumOf<En399> { typedef En399_Cls C; static const char *name() { return "En399"; } static std::vector<EV> get() { return {{"En399_A", uint64_t(En399::En399_A)}, {"En399_AB", uint64_t(En399::En399_AB)}, {"En399_Ba", uint64_t(En399::En399_Ba)}}; } };
template <> struct EnumOf<En400> { typedef En400_Cls C; static const char *name() { return "En400"; } static std::vector<EV> get() { return {{"En400_A", uint64_t(En400::En400_A)}, {"En400_AB", uint64_t(En400::En400_AB)}, {"En400_Ba", uint64_t(En400::En400_Ba)}}; } };
template <> struct EnumOf<En401> { typedef En401_Cls C; static const char *name() { return "En401"; } static std::vector<EV> get() { return {{"En401_A", uint64_t(En401::En401_A)}, {"En401_AB", uint64_t(En401::En401_AB)}, {"En401_Ba", uint64_t(En401::En401_Ba)}}; } };
template <> struct EnumOf<En402> { typedef En402_Cls C; static const char *name() { return "En402"; } static std::vector<EV> get() { return {{"En402_A", uint64_t(En402::En402_A)}, {"En402_AB", uint64_t(En402::En402_AB)}, {"En402_Ba", uint64_t(En402::En402_Ba)}}; } };
template <> struct EnumOf<En403> { typedef En403_Cls C; static const char *name() { return "En403"; } static std::vector<EV> get() { return {{"En403_A", uint64_t(En403::En403_A)}, {"En403_AB", uint64_t(En403::En403_AB)}, {"En403_Ba", uint64_t(En403::En403_Ba)}}; } };
template <> struct EnumOf<En404> { typedef En404_Cls C; static const char *name() { return "En404"; } static std::vector<EV> get() { return {{"En404_A", uint64_t(En404::En404_A)}, {"En404_AB", uint64_t(En404::En404_AB)}, {"En404_Ba", uint64_t(En404::En404_Ba)}}; } };
template <> struct EnumOf<En405> { typedef En405_Cls C; static const char *name() { return "En405"; } static std::vector<EV> get() { return {{"En405_A", uint64_t(En405::En405_A)}, {"En405_AB", uint64_t(En405::En405_AB)}, {"En405_Ba", uint64_t(En405::En405_Ba)}}; } };
template <> struct EnumOf<En406> { typedef En406_Cls C; static const char *name() { return "En406"; } static std::vector<EV> get() { return {{"En406_A", uint64_t(En406::En406_A)}, {"En406_AB", uint64_t(En406::En406_AB)}, {"En406_Ba", uint64_t(En406::En406_Ba)}}; } };
template <> struct EnumOf<En407> { typedef En407_Cls C; static const char *name() { return "En407"; } static std::vector<EV> get() { return {{"En407_A", uint64_t(En407::En407_A)}, {"En407_AB", uint64_t(En407::En407_AB)}, {"En407_Ba", uint64_t(En407::En407_Ba)}}; } };
template <> struct EnumOf<En408> { typedef En408_Cls C; static const char *name() { return "En408"; } static std::vector<EV> get() { return {{"En408_A", uint64_t(En408::En408_A)}, {"En408_AB", uint64_t(En408::En408_AB)}, {"En408_Ba", uint64_t(En408::En408_Ba)}}; } };
template <> struct EnumOf<En409> { typedef En409_Cls C; static const char *name() { return "En409"; } static std::vector<EV> get() { return {{"En409_A", uint64_t(En409::En409_A)}, {"En409_AB", uint64_t(En409::En409_AB)}, {"En409_Ba", uint64_t(En409::En409_Ba)}}; } };
template <> struct EnumOf<En410> { typedef En410_Cls C; static const char *name() { return "En410"; } static std::vector<EV> get() { return {{"En410_A", uint64_t(En410::En410_A)}, {"En410_AB", uint64_t(En410::En410_AB)}, {"En410_Ba", uint64_t(En410::En410_Ba)}}; } };
template <> struct EnumOf<En411> { typedef En411_Cls C; static const char *name() { return "En411"; } static std::vector<EV> get() { return {{"En411_A", uint64_t(En411::En411_A)}, {"En411_AB", uint64_t(En411::En411_AB)}, {"En411_Ba", uint64_t(En411::En411_Ba)}}; } };
template <> struct EnumOf<En412> { typedef En412_Cls C; static const char *name() { return "En412"; } static std::vector<EV> get() { return {{"En412_A", uint64_t(En412::En412_A)}, {"En412_AB", uint64_t(En412::En412_AB)}, {"En412_Ba", uint64_t(En412::En412_Ba)}}; } };
template <> struct EnumOf<En413> { typedef En413_Cls C; static const char *name() { return "En413"; } static std::vector<EV> get() { return {{"En413_A", uint64_t(En413::En413_A)}, {"En413_AB", uint64_t(En413::En413_AB)}, {"En413_Ba", uint64_t(En413::En413_Ba)}}; } };
template <> struct EnumOf<En414> { typedef En414_Cls C; static const char *name() { return "En414"; } static std::vector<EV> get() { return {{"En414_A", uint64_t(En414::En414_A)}, {"En414_AB", uint64_t(En414::En414_AB)}, {"En414_Ba", uint64_t(En414::En414_Ba)}}; } };
template <> struct EnumOf<En415> { typedef En415_Cls C; static const char *name() { return "En415"; } static std::vector<EV> get() { return {{"En415_A", uint64_t(En415::En415_A)}, {"En415_AB", uint64_t(En415::En415_AB)}, {"En415_Ba", uint64_t(En415::En415_Ba)}}; } };
template <> struct EnumOf<En416> { typedef En416_Cls C; static const char *name() { return "En416"; } static std::vector<EV> get() { return {{"En416_A", uint64_t(En416::En416_A)}, {"En416_AB", uint64_t(En416::En416_AB)}, {"En416_Ba", uint64_t(En416::En416_Ba)}}; } };
template <> struct EnumOf<En417> { typedef En417_Cls C; static const char *name() { return "En417"; } static std::vector<EV> get() { return {{"En417_A", uint64_t(En417::En417_A)}, {"En417_AB", uint64_t(En417::En417_AB)}, {"En417_Ba", uint64_t(En417::En417_Ba)}}; } };
template <> struct EnumOf<En418> { typedef En418_Cls C; static const char *name() { return "En418"; } static std::vector<EV> get() { return {{"En418_A", uint64_t(En418::En418_A)}, {"En418_AB", uint64_t(En418::En418_AB)}, {"En418_Ba", uint64_t(En418::En418_Ba)}}; } };
template <> struct EnumOf<En419> { typedef En419_Cls C; static const char *name() { return "En419"; } static std::vector<EV> get() { return {{"En419_A", uint64_t(En419::En419_A)}, {"En419_AB", uint64_t(En419::En419_AB)}, {"En419_Ba", uint64_t(En419::En419_Ba)}}; } };
template <> struct EnumOf<En420> { typedef En420_Cls C; static const char *name() { return "En420"; } static std::vector<EV> get() { return {{"En420_A", uint64_t(En420::En420_A)}, {"En420_AB", uint64_t(En420::En420_AB)}, {"En420_Ba", uint64_t(En420::En420_Ba)}}; } };
template <> struct EnumOf<En421> { typedef En421_Cls C; static const char *name() { return "En421"; } static std::vector<EV> get() { return {{"En421_A", uint64_t(En421::En421_A)}, {"En421_AB", uint64_t(En421::En421_AB)}, {"En421_Ba", uint64_t(En421::En421_Ba)}}; } };
template <> struct EnumOf<En422> { typedef En422_Cls C; static const char *name() { return "En422"; } static std::vector<EV> get() { return {{"En422_A", uint64_t(En422::En422_A)}, {"En422_AB", uint64_t(En422::En422_AB)}, {"En422_Ba", uint64_t(En422::En422_Ba)}}; } };
template <> struct EnumOf<En423> { typedef En423_Cls C; static const char *name() { return "En423"; } static std::vector<EV> get() { return {{"En423_A", uint64_t(En423::En423_A)}, {"En423_AB", uint64_t(En423::En423_AB)}, {"En423_Ba", uint64_t(En423::En423_Ba)}}; } };
template <> struct EnumOf<En424> { typedef En424_Cls C; static const char *name() { return "En424"; } static std::vector<EV> get() { return {{"En424_A", uint64_t(En424::En424_A)}, {"En424_AB", uint64_t(En424::En424_AB)}, {"En424_Ba", uint64_t(En424::En424_Ba)}}; } };
template <> struct EnumOf<En425> { typedef En425_Cls C; static const char *name() { return "En425"; } static std::vector<EV> get() { return {{"En425_A", uint64_t(En425::En425_A)}, {"En425_AB", uint64_t(En425::En425_AB)}, {"En425_Ba", uint64_t(En425::En425_Ba)}}; } };
template <> struct EnumOf<En426> { typedef En426_Cls C; static const char *name() { return "En426"; } static std::vector<EV> get() { return {{"En426_A", uint64_t(En426::En426_A)}, {"En426_AB", uint64_t(En426::En426_AB)}, {"En426_Ba", uint64_t(En426::En426_Ba)}}; } };
template <> struct EnumOf<En427> { typedef En427_Cls C; static const char *name() { return "En427"; } static std::vector<EV> get() { return {{"En427_A", uint64_t(En427::En427_A)}, {"En427_AB", uint64_t(En427::En427_AB)}, {"En427_Ba", uint64_t(En427::En427_Ba)}}; } };
template <> struct EnumOf<En428> { typedef En428_Cls C; static const char *name() { return "En428"; } static std::vector<EV> get() { return {{"En428_A", uint64_t(En428::En428_A)}, {"En428_AB", uint64_t(En428::En428_AB)}, {"En428_Ba", uint64_t(En428::En428_Ba)}}; } };
template <> struct EnumOf<En429> { typedef En429_Cls C; static const char *name() { return "En429"; } static std::vector<EV> get() { return {{"En429_A", uint64_t(En429::En429_A)}, {"En429_AB", uint64_t(En429::En429_AB)}, {"En429_Ba", uint64_t(En429::En429_Ba)}}; } };
template <> struct EnumOf<En430> { typedef En430_Cls C; static const char *name() { return "En430"; } static std::vector<EV> get() { return {{"En430_A", uint64_t(En430::En430_A)}, {"En430_AB", uint64_t(En430::En430_AB)}, {"En430_Ba", uint64_t(En430::En430_Ba)}}; } };
template <> struct EnumOf<En431> { typedef En431_Cls C; static const char *name() { return "En431"; } static std::vector<EV> get() { return {{"En431_A", uint64_t(En431::En431_A)}, {"En431_AB", uint64_t(En431::En431_AB)}, {"En431_Ba", uint64_t(En431::En431_Ba)}}; } };
template <> struct EnumOf<En432> { typedef En432_Cls C; static const char *name() { return "En432"; } static std::vector<EV> get() { return {{"En432_A", uint64_t(En432::En432_A)}, {"En432_AB", uint64_t(En432::En432_AB)}, {"En432_Ba", uint64_t(En432::En432_Ba)}}; } };
template <> struct EnumOf<En433> { typedef En433_Cls C; static const char *name() { return "En433"; } static std::vector<EV> get() { return {{"En433_A", uint64_t(En433::En433_A)}, {"En433_AB", uint64_t(En433::En433_AB)}, {"En433_Ba", uint64_t(En433::En433_Ba)}}; } };
template <> struct EnumOf<En434> { typedef En434_Cls C; static const char *name() { return "En434"; } static std::vector<EV> get() { return {{"En434_A", uint64_t(En434::En434_A)}, {"En434_AB", uint64_t(En434::En434_AB)}, {"En434_Ba", uint64_t(En434::En434_Ba)}}; } };
template <> struct EnumOf<En435> { typedef En435_Cls C; static const char *name() { return "En435"; } static std::vector<EV> get() { return {{"En435_A", uint64_t(En435::En435_A)}, {"En435_AB", uint64_t(En435::En435_AB)}, {"En435_Ba", uint64_t(En435::En435_Ba)}}; } };
template <> struct EnumOf<En436> { typedef En436_Cls C; static const char *name() { return "En436"; } static std::vector<EV> get() { return {{"En436_A", uint64_t(En436::En436_A)}, {"En436_AB", uint64_t(En436::En436_AB)}, {"En436_Ba", uint64_t(En436::En436_Ba)}}; } };
template <> struct EnumOf<En437> { typedef En437_Cls C; static const char *name() { return "En437"; } static std::vector<EV> get() { return {{"En437_A", uint64_t(En437::En437_A)}, {"En437_AB", uint64_t(En437::En437_AB)}, {"En437_Ba", uint64_t(En437::En437_Ba)}}; } };
template <> struct EnumOf<En438> { typedef En438_Cls C; static const char *name() { return "En438"; } static std::vector<EV> get() { return {{"En438_A", uint64_t(En438::En438_A)}, {"En438_AB", uint64_t(En438::En438_AB)}, {"En438_Ba", uint64_t(En438::En438_Ba)}}; } };
template <> struct EnumOf<En439> { typedef En439_Cls C; static const char *name() { return "En439"; } static std::vector<EV> get() { return {{"En439_A", uint64_t(En439::En439_A)}, {"En439_AB", uint64_t(En439::En439_AB)}, {"En439_Ba", uint64_t(En439::En439_Ba)}}; } };
template <> struct EnumOf<En440> { typedef En440_Cls C; static const char *name() { return "En440"; } static std::vector<EV> get() { return {{"En440_A", uint64_t(En440::En440_A)}, {"En440_AB", uint64_t(En440::En440_AB)}, {"En440_Ba", uint64_t(En440::En440_Ba)}}; } };
template <> struct EnumOf<En441> { typedef En441_Cls C; static const char *name() { return "En441"; } static std::vector<EV> get() { return {{"En441_A", uint64_t(En441::En441_A)}, {"En441_AB", uint64_t(En441::En441_AB)}, {"En441_Ba", uint64_t(En441::En441_Ba)}}; } };
template <> struct EnumOf<En442> { typedef En442_Cls C; static const char *name() { return "En442"; } static std::vector<EV> get() { return {{"En442_A", uint64_t(En442::En442_A)}, {"En442_AB", uint64_t(En442::En442_AB)}, {"En442_Ba", uint64_t(En442::En442_Ba)}}; } };
template <> struct EnumOf<En443> { typedef En443_Cls C; static const char *name() { return "En443"; } static std::vector<EV> get() { return {{"En443_A", uint64_t(En443::En443_A)}, {"En443_AB", uint64_t(En443::En443_AB)}, {"En443_Ba", uint64_t(En443::En443_Ba)}}; } };
template <> struct EnumOf<En444> { typedef En444_Cls C; static const char *name() { return "En444"; } static std::vector<EV> get() { return {{"En444_A", uint64_t(En444::En444_A)}, {"En444_AB", uint64_t(En444::En444_AB)}, {"En444_Ba", uint64_t(En444::En444_Ba)}}; } };
template <> struct EnumOf<En445> { typedef En445_Cls C; static const char *name() { return "En445"; } static std::vector<EV> get() { return {{"En445_A", uint64_t(En445::En445_A)}, {"En445_AB", uint64_t(En445::En445_AB)}, {"En445_Ba", uint64_t(En445::En445_Ba)}}; } };
template <> struct EnumOf<En446> { typedef En446_Cls C; static const char *name() { return "En446"; } static std::vector<EV> get() { return {{"En446_A", uint64_t(En446::En446_A)}, {"En446_AB", uint64_t(En446::En446_AB)}, {"En446_Ba", uint64_t(En446::En446_Ba)}}; } };
template <> struct EnumOf<En447> { typedef En447_Cls C; static const char *name() { return "En447"; } static std::vector<EV> get() { return {{"En447_A", uint64_t(En447::En447_A)}, {"En447_AB", uint64_t(En447::En447_AB)}, {"En447_Ba", uint64_t(En447::En447_Ba)}}; } };
template <> struct EnumOf<En448> { typedef En448_Cls C; static const char *name() { return "En448"; } static std::vector<EV> get() { return {{"En448_A", uint64_t(En448::En448_A)}, {"En448_AB", uint64_t(En448::En448_AB)}, {"En448_Ba", uint64_t(En448::En448_Ba)}}; } };
template <> struct EnumOf<En449> { typedef En449_Cls C; static const char *name() { return "En449"; } static std::vector<EV> get() { return {{"En449_A", uint64_t(En449::En449_A)}, {"En449_AB", uint64_t(En449::En449_AB)}, {"En449_Ba", uint64_t(En449::En449_Ba)}}; } };
template <> struct EnumOf<En450> { typedef En450_Cls C; static const char *name() { return "En450"; } static std::vector<EV> get() { return {{"En450_A", uint64_t(En450::En450_A)}, {"En450_AB", uint64_t(En450::En450_AB)}, {"En450_Ba", uint64_t(En450::En450_Ba)}}; } };
template <> struct EnumOf<En451> { typedef En451_Cls C; static const char *name() { return "En451"; } static std::vector<EV> get() { return {{"En451_A", uint64_t(En451::En451_A)}, {"En451_AB", uint64_t(En451::En451_AB)}, {"En451_Ba", uint64_t(En451::En451_Ba)}}; } };
template <> struct EnumOf<En452> { typedef En452_Cls C; static const char *name() { return "En452"; } static std::vector<EV> get() { return {{"En452_A", uint64_t(En452::En452_A)}, {"En452_AB", uint64_t(En452::En452_AB)}, {"En452_Ba", uint64_t(En452::En452_Ba)}}; } };
template <> struct EnumOf<En453> { typedef En453_Cls C; static const char *name() { return "En453"; } static std::vector<EV> get() { return {{"En453_A", uint64_t(En453::En453_A)}, {"En453_AB", uint64_t(En453::En453_AB)}, {"En453_Ba", uint64_t(En453::En453_Ba)}}; } };
template <> struct EnumOf<En454> { typedef En454_Cls C; static const char *name() { return "En454"; } static std::vector<EV> get() { return {{"En454_A", uint64_t(En454::En454_A)}, {"En454_AB", uint64_t(En454::En454_AB)}, {"En454_Ba", uint64_t(En454::En454_Ba)}}; } };
template <> struct EnumOf<En455> { typedef En455_Cls C; static const char *name() { return "En455"; } static std::vector<EV> get() { return {{"En455_A", uint64_t(En455::En455_A)}, {"En455_AB", uint64_t(En455::En455_AB)}, {"En455_Ba", uint64_t(En455::En455_Ba)}}; } };
template <> struct EnumOf<En456> { typedef En456_Cls C; static const char *name() { return "En456"; } static std::vector<EV> get() { return {{"En456_A", uint64_t(En456::En456_A)}, {"En456_AB", uint64_t(En456::En456_AB)}, {"En456_Ba", uint64_t(En456::En456_Ba)}}; } };
template <> struct EnumOf<En457> { typedef En457_Cls C; static const char *name() { return "En457"; } static std::vector<EV> get() { return {{"En457_A", uint64_t(En457::En457_A)}, {"En457_AB", uint64_t(En457::En457_AB)}, {"En457_Ba", uint64_t(En457::En457_Ba)}}; } };
template <> struct EnumOf<En458> { typedef En458_Cls C; static const char *name() { return "En458"; } static std::vector<EV> get() { return {{"En458_A", uint64_t(En458::En458_A)}, {"En458_AB", uint64_t(En458::En458_AB)}, {"En458_Ba", uint64_t(En458::En458_Ba)}}; } };
template <> struct EnumOf<En459> { typedef En459_Cls C; static const char *name() { return "En459"; } static std::vector<EV> get() { return {{"En459_A", uint64_t(En459::En459_A)}, {"En459_AB", uint64_t(En459::En459_AB)}, {"En459_Ba", uint64_t(En459::En459_Ba)}}; } };
template <> struct EnumOf<En460> { typedef En460_Cls C; static const char *name() { return "En460"; } static std::vector<EV> get() { return {{"En460_A", uint64_t(En460::En460_A)}, {"En460_AB", uint64_t(En460::En460_AB)}, {"En460_Ba", uint64_t(En460::En460_Ba)}}; } };
template <> struct EnumOf<En461> { typedef En461_Cls C; static const char *name() { return "En461"; } static std::vector<EV> get() { return {{"En461_A", uint64_t(En461::En461_A)}, {"En461_AB", uint64_t(En461::En461_AB)}, {"En461_Ba", uint64_t(En461::En461_Ba)}}; } };
template <> struct EnumOf<En462> { typedef En462_Cls C; static const char *name() { return "En462"; } static std::vector<EV> get() { return {{"En462_A", uint64_t(En462::En462_A)}, {"En462_AB", uint64_t(En462::En462_AB)}, {"En462_Ba", uint64_t(En462::En462_Ba)}}; } };
template <> struct EnumOf<En463> { typedef En463_Cls C; static const char *name() { return "En463"; } static std::vector<EV> get() { return {{"En463_A", uint64_t(En463::En463_A)}, {"En463_AB", uint64_t(En463::En463_AB)}, {"En463_Ba", uint64_t(En463::En463_Ba)}}; } };
template <> struct EnumOf<En464> { typedef En464_Cls C; static const char *name() { return "En464"; } static std::vector<EV> get() { return {{"En464_A", uint64_t(En464::En464_A)}, {"En464_AB", uint64_t(En464::En464_AB)}, {"En464_Ba", uint64_t(En464::En464_Ba)}}; } };
template <> struct EnumOf<En465> { typedef En465_Cls C; static const char *name() { return "En465"; } static std::vector<EV> get() { return {{"En465_A", uint64_t(En465::En465_A)}, {"En465_AB", uint64_t(En465::En465_AB)}, {"En465_Ba", uint64_t(En465::En465_Ba)}}; } };
template <> struct EnumOf<En466> { typedef En466_Cls C; static const char *name() { return "En466"; } static std::vector<EV> get() { return {{"En466_A", uint64_t(En466::En466_A)}, {"En466_AB", uint64_t(En466::En466_AB)}, {"En466_Ba", uint64_t(En466::En466_Ba)}}; } };
template <> struct EnumOf<En467> { typedef En467_Cls C; static const char *name() { return "En467"; } static std::vector<EV> get() { return {{"En467_A", uint64_t(En467::En467_A)}, {"En467_AB", uint64_t(En467::En467_AB)}, {"En467_Ba", uint64_t(En467::En467_Ba)}}; } };
template <> struct EnumOf<En468> { typedef En468_Cls C; static const char *name() { return "En468"; } static std::vector<EV> get() { return {{"En468_A", uint64_t(En468::En468_A)}, {"En468_AB", uint64_t(En468::En468_AB)}, {"En468_Ba", uint64_t(En468::En468_Ba)}}; } };
template <> struct EnumOf<En469> { typedef En469_Cls C; static const char *name() { return "En469"; } static std::vector<EV> get() { return {{"En469_A", uint64_t(En469::En469_A)}, {"En469_AB", uint64_t(En469::En469_AB)}, {"En469_Ba", uint64_t(En469::En469_Ba)}}; } };
template <> struct EnumOf<En470> { typedef En470_Cls C; static const char *name() { return "En470"; } static std::vector<EV> get() { return {{"En470_A", uint64_t(En470::En470_A)}, {"En470_AB", uint64_t(En470::En470_AB)}, {"En470_Ba", uint64_t(En470::En470_Ba)}}; } };
template <> struct EnumOf<En471> { typedef En471_Cls C; static const char *name() { return "En471"; } static std::vector<EV> get() { return {{"En471_A", uint64_t(En471::En471_A)}, {"En471_AB", uint64_t(En471::En471_AB)}, {"En471_Ba", uint64_t(En471::En471_Ba)}}; } };
template <> struct EnumOf<En472> { typedef En472_Cls C; static const char *name() { return "En472"; } static std::vector<EV> get() { return {{"En472_A", uint64_t(En472::En472_A)}, {"En472_AB", uint64_t(En472::En472_AB)}, {"En472_Ba", uint64_t(En472::En472_Ba)}}; } };
template <> struct EnumOf<En473> { typedef En473_Cls C; static const char *name() { return "En473"; } static std::vector<EV> get() { return {{"En473_A", uint64_t(En473::En473_A)}, {"En473_AB", uint64_t(En473::En473_AB)}, {"En473_Ba", uint64_t(En473::En473_Ba)}}; } };
template <> struct EnumOf<En474> { typedef En474_Cls C; static const char *name() { return "En474"; } static std::vector<EV> get() { return {{"En474_A", uint64_t(En474::En474_A)}, {"En474_AB", uint64_t(En474::En474_AB)}, {"En474_Ba", uint64_t(En474::En474_Ba)}}; } };
template <> struct EnumOf<En475> { typedef En475_Cls C; static const char *name() { return "En475"; } static std::vector<EV> get() { return {{"En475_A", uint64_t(En475::En475_A)}, {"En475_AB", uint64_t(En475::En475_AB)}, {"En475_Ba", uint64_t(En475::En475_Ba)}}; } };
template <> struct EnumOf<En476> { typedef En476_Cls C; static const char *name() { return "En476"; } static std::vector<EV> get() { return {{"En476_A", uint64_t(En476::En476_A)}, {"En476_AB", uint64_t(En476::En476_AB)}, {"En476_Ba", uint64_t(En476::En476_Ba)}}; } };
template <> struct EnumOf<En477> { typedef En477_Cls C; static const char *name() { return "En477"; } static std::vector<EV> get() { return {{"En477_A", uint64_t(En477::En477_A)}, {"En477_AB", uint64_t(En477::En477_AB)}, {"En477_Ba", uint64_t(En477::En477_Ba)}}; } };
template <> struct EnumOf<En478> { typedef En478_Cls C; static const char *name() { return "En478"; } static std::vector<EV> get() { return {{"En478_A", uint64_t(En478::En478_A)}, {"En478_AB", uint64_t(En478::En478_AB)}, {"En478_Ba", uint64_t(En478::En478_Ba)}}; } };
template <> struct EnumOf<En479> { typedef En479_Cls C; static const char *name() { return "En479"; } static std::vector<EV> get() { return {{"En479_A", uint64_t(En479::En479_A)}, {"En479_AB", uint64_t(En479::En479_AB)}, {"En479_Ba", uint64_t(En479::En479_Ba)}}; } };
template <> struct EnumOf<En480> { typedef En480_Cls C; static const char *name() { return "En480"; } static std::vector<EV> get() { return {{"En480_A", uint64_t(En480::En480_A)}, {"En480_AB", uint64_t(En480::En480_AB)}, {"En480_Ba", uint64_t(En480::En480_Ba)}}; } };
template <> struct EnumOf<En481> { typedef En481_Cls C; static const char *name() { return "En481"; } static std::vector<EV> get() { return {{"En481_A", uint64_t(En481::En481_A)}, {"En481_AB", uint64_t(En481::En481_AB)}, {"En481_Ba", uint64_t(En481::En481_Ba)}}; } };
template <> struct EnumOf<En482> { typedef En482_Cls C; static const char *name() { return "En482"; } static std::vector<EV> get() { return {{"En482_A", uint64_t(En482::En482_A)}, {"En482_AB", uint64_t(En482::En482_AB)}, {"En482_Ba", uint64_t(En482::En482_Ba)}}; } };
template <> struct EnumOf<En483> { typedef En483_Cls C; static const char *name() { return "En483"; } static std::vector<EV> get() { return {{"En483_A", uint64_t(En483::En483_A)}, {"En483_AB", uint64_t(En483::En483_AB)}, {"En483_Ba", uint64_t(En483::En483_Ba)}}; } };
template <> struct EnumOf<En484> { typedef En484_Cls C; static const char *name() { return "En484"; } static std::vector<EV> get() { return {{"En484_A", uint64_t(En484::En484_A)}, {"En484_AB", uint64_t(En484::En484_AB)}, {"En484_Ba", uint64_t(En484::En484_Ba)}}; } };
template <> struct EnumOf<En485> { typedef En485_Cls C; static const char *name() { return "En485"; } static std::vector<EV> get() { return {{"En485_A", uint64_t(En485::En485_A)}, {"En485_AB", uint64_t(En485::En485_AB)}, {"En485_Ba", uint64_t(En485::En485_Ba)}}; } };
template <> struct EnumOf<En486> { typedef En486_Cls C; static const char *name() { return "En486"; } static std::vector<EV> get() { return {{"En486_A", uint64_t(En486::En486_A)}, {"En486_AB", uint64_t(En486::En486_AB)}, {"En486_Ba", uint64_t(En486::En486_Ba)}}; } };
template <> struct EnumOf<En487> { typedef En487_Cls C; static const char *name() { return "En487"; } static std::vector<EV> get() { return {{"En487_A", uint64_t(En487::En487_A)}, {"En487_AB", uint64_t(En487::En487_AB)}, {"En487_Ba", uint64_t(En487::En487_Ba)}}; } };
template <> struct EnumOf<En488> { typedef En488_Cls C; static const char *name() { return "En488"; } static std::vector<EV> get() { return {{"En488_A", uint64_t(En488::En488_A)}, {"En488_AB", uint64_t(En488::En488_AB)}, {"En488_Ba", uint64_t(En488::En488_Ba)}}; } };
template <> struct EnumOf<En489> { typedef En489_Cls C; static const char *name() { return "En489"; } static std::vector<EV> get() { return {{"En489_A", uint64_t(En489::En489_A)}, {"En489_AB", uint64_t(En489::En489_AB)}, {"En489_Ba", uint64_t(En489::En489_Ba)}}; } };
template <> struct EnumOf<En490> { typedef En490_Cls C; static const char *name() { return "En490"; } static std::vector<EV> get() { return {{"En490_A", uint64_t(En490::En490_A)}, {"En490_AB", uint64_t(En490::En490_AB)}, {"En490_Ba", uint64_t(En490::En490_Ba)}}; } };
template <> struct EnumOf<En491> { typedef En491_Cls C; static const char *name() { return "En491"; } static std::vector<EV> get() { return {{"En491_A", uint64_t(En491::En491_A)}, {"En491_AB", uint64_t(En491::En491_AB)}, {"En491_Ba", uint64_t(En491::En491_Ba)}}; } };
template <> struct EnumOf<En492> { typedef En492_Cls C; static const char *name() { return "En492"; } static std::vector<EV> get() { return {{"En492_A", uint64_t(En492::En492_A)}, {"En492_AB", uint64_t(En492::En492_AB)}, {"En492_Ba", uint64_t(En492::En492_Ba)}}; } };
template <> struct EnumOf<En493> { typedef En493_Cls C; static const char *name() { return "En493"; } static std::vector<EV> get() { return {{"En493_A", uint64_t(En493::En493_A)}, {"En493_AB", uint64_t(En493::En493_AB)}, {"En493_Ba", uint64_t(En493::En493_Ba)}}; } };
template <> struct EnumOf<En494> { typedef En494_Cls C; static const char *name() { return "En494"; } static std::vector<EV> get() { return {{"En494_A", uint64_t(En494::En494_A)}, {"En494_AB", uint64_t(En494::En494_AB)}, {"En494_Ba", uint64_t(En494::En494_Ba)}}; } };
template <> struct EnumOf<En495> { typedef En495_Cls C; static const char *name() { return "En495"; } static std::vector<EV> get() { return {{"En495_A", uint64_t(En495::En495_A)}, {"En495_AB", uint64_t(En495::En495_AB)}, {"En495_Ba", uint64_t(En495::En495_Ba)}}; } };
template <> struct EnumOf<En496> { typedef En496_Cls C; static const char *name() { return "En496"; } static std::vector<EV> get() { return {{"En496_A", uint64_t(En496::En496_A)}, {"En496_AB", uint64_t(En496::En496_AB)}, {"En496_Ba", uint64_t(En496::En496_Ba)}}; } };
template <> struct EnumOf<En497> { typedef En497_Cls C; static const char *name() { return "En497"; } static std::vector<EV> get() { return {{"En497_A", uint64_t(En497::En497_A)}, {"En497_AB", uint64_t(En497::En497_AB)}, {"En497_Ba", uint64_t(En497::En497_Ba)}}; } };
template <> struct EnumOf<En498> { typedef En498_Cls C; static const char *name() { return "En498"; } static std::vector<EV> get() { return {{"En498_A", uint64_t(En498::En498_A)}, {"En498_AB", uint64_t(En498::En498_AB)}, {"En498_Ba", uint64_t(En498::En498_Ba)}}; } };
template <> struct EnumOf<En499> { typedef En499_Cls C; static const char *name() { return "En499"; } static std::vector<EV> get() { return {{"En499_A", uint64_t(En499::En499_A)}, {"En499_AB", uint64_t(En499::En499_AB)}, {"En499_Ba", uint64_t(En499::En499_Ba)}}; } };
template <> struct EnumOf<En500> { typedef En500_Cls C; static const char *name() { return "En500"; } static std::vector<EV> get() { return {{"En500_A", uint64_t(En500::En500_A)}, {"En500_AB", uint64_t(En500::En500_AB)}, {"En500_Ba", uint64_t(En500::En500_Ba)}}; } };
template <> struct EnumOf<En501> { typedef En501_Cls C; static const char *name() { return "En501"; } static std::vector<EV> get() { return {{"En501_A", uint64_t(En501::En501_A)}, {"En501_AB", uint64_t(En501::En501_AB)}, {"En501_Ba", uint64_t(En501::En501_Ba)}}; } };
template <> struct EnumOf<En502> { typedef En502_Cls C; static const char *name() { return "En502"; } static std::vector<EV> get() { return {{"En502_A", uint64_t(En502::En502_A)}, {"En502_AB", uint64_t(En502::En502_AB)}, {"En502_Ba", uint64_t(En502::En502_Ba)}}; } };
template <> struct EnumOf<En503> { typedef En503_Cls C; static const char *name() { return "En503"; } static std::vector<EV> get() { return {{"En503_A", uint64_t(En503::En503_A)}, {"En503_AB", uint64_t(En503::En503_AB)}, {"En503_Ba", uint64_t(En503::En503_Ba)}}; } };
template <> struct EnumOf<En504> { typedef En504_Cls C; static const char *name() { return "En504"; } static std::vector<EV> get() { return {{"En504_A", uint64_t(En504::En504_A)}, {"En504_AB", uint64_t(En504::En504_AB)}, {"En504_Ba", uint64_t(En504::En504_Ba)}}; } };
template <> struct EnumOf<En505> { typedef En505_Cls C; static const char *name() { return "En505"; } static std::vector<EV> get() { return {{"En505_A", uint64_t(En505::En505_A)}, {"En505_AB", uint64_t(En505::En505_AB)}, {"En505_Ba", uint64_t(En505::En505_Ba)}}; } };
template <> struct EnumOf<En506> { typedef En506_Cls C; static const char *name() { return "En506"; } static std::vector<EV> get() { return {{"En506_A", uint64_t(En506::En506_A)}, {"En506_AB", uint64_t(En506::En506_AB)}, {"En506_Ba", uint64_t(En506::En506_Ba)}}; } };
template <> struct EnumOf<En507> { typedef En507_Cls C; static const char *name() { return "En507"; } static std::vector<EV> get() { return {{"En507_A", uint64_t(En507::En507_A)}, {"En507_AB", uint64_t(En507::En507_AB)}, {"En507_Ba", uint64_t(En507::En507_Ba)}}; } };
template <> struct EnumOf<En508> { typedef En508_Cls C; static const char *name() { return "En508"; } static std::vector<EV> get() { return {{"En508_A", uint64_t(En508::En508_A)}, {"En508_AB", uint64_t(En508::En508_AB)}, {"En508_Ba", uint64_t(En508::En508_Ba)}}; } };
template <> struct EnumOf<En509> { typedef En509_Cls C; static const char *name() { return "En509"; } static std::vector<EV> get() { return {{"En509_A", uint64_t(En509::En509_A)}, {"En509_AB", uint64_t(En509::En509_AB)}, {"En509_Ba", uint64_t(En509::En509_Ba)}}; } };
template <> struct EnumOf<En510> { typedef En510_Cls C; static const char *name() { return "En510"; } static std::vector<EV> get() { return {{"En510_A", uint64_t(En510::En510_A)}, {"En510_AB", uint64_t(En510::En510_AB)}, {"En510_Ba", uint64_t(En510::En510_Ba)}}; } };
template <> struct EnumOf<En511> { typedef En511_Cls C; static const char *name() { return "En511"; } static std::vector<EV> get() { return {{"En511_A", uint64_t(En511::En511_A)}, {"En511_AB", uint64_t(En511::En511_AB)}, {"En511_Ba", uint64_t(En511::En511_Ba)}}; } };
template <> struct EnumOf<En512> { typedef En512_Cls C; static const char *name() { return "En512"; } static std::vector<EV> get() { return {{"En512_A", uint64_t(En512::En512_A)}, {"En512_AB", uint64_t(En512::En512_AB)}, {"En512_Ba", uint64_t(En512::En512_Ba)}}; } };
template <> struct EnumOf<En513> { typedef En513_Cls C; static const char *name() { return "En513"; } static std::vector<EV> get() { return {{"En513_A", uint64_t(En513::En513_A)}, {"En513_AB", uint64_t(En513::En513_AB)}, {"En513_Ba", uint64_t(En513::En513_Ba)}}; } };
template <> struct EnumOf<En514> { typedef En514_Cls C; static const char *name() { return "En514"; } static std::vector<EV> get() { return {{"En514_A", uint64_t(En514::En514_A)}, {"En514_AB", uint64_t(En514::En514_AB)}, {"En514_Ba", uint64_t(En514::En514_Ba)}}; } };
template <> struct EnumOf<En515> { typedef En515_Cls C; static const char *name() { return "En515"; } static std::vector<EV> get() { return {{"En515_A", uint64_t(En515::En515_A)}, {"En515_AB", uint64_t(En515::En515_AB)}, {"En515_Ba", uint64_t(En515::En515_Ba)}}; } };
template <> struct EnumOf<En516> { typedef En516_Cls C; static const char *name() { return "En516"; } static std::vector<EV> get() { return {{"En516_A", uint64_t(En516::En516_A)}, {"En516_AB", uint64_t(En516::En516_AB)}, {"En516_Ba", uint64_t(En516::En516_Ba)}}; } };
template <> struct EnumOf<En517> { typedef En517_Cls C; static const char *name() { return "En517"; } static std::vector<EV> get() { return {{"En517_A", uint64_t(En517::En517_A)}, {"En517_AB", uint64_t(En517::En517_AB)}, {"En517_Ba", uint64_t(En517::En517_Ba)}}; } };
template <> struct EnumOf<En518> { typedef En518_Cls C; static const char *name() { return "En518"; } static std::vector<EV> get() { return {{"En518_A", uint64_t(En518::En518_A)}, {"En518_AB", uint64_t(En518::En518_AB)}, {"En518_Ba", uint64_t(En518::En518_Ba)}}; } };
template <> struct EnumOf<En519> { typedef En519_Cls C; static const char *name() { return "En519"; } static std::vector<EV> get() { return {{"En519_A", uint64_t(En519::En519_A)}, {"En519_AB", uint64_t(En519::En519_AB)}, {"En519_Ba", uint64_t(En519::En519_Ba)}}; } };
template <> struct EnumOf<En520> { typedef En520_Cls C; static const char *name() { return "En520"; } static std::vector<EV> get() { return {{"En520_A", uint64_t(En520::En520_A)}, {"En520_AB", uint64_t(En520::En520_AB)}, {"En520_Ba", uint64_t(En520::En520_Ba)}}; } };
template <> struct EnumOf<En521> { typedef En521_Cls C; static const char *name() { return "En521"; } static std::vector<EV> get() { return {{"En521_A", uint64_t(En521::En521_A)}, {"En521_AB", uint64_t(En521::En521_AB)}, {"En521_Ba", uint64_t(En521::En521_Ba)}}; } };
template <> struct EnumOf<En522> { typedef En522_Cls C; static const char *name() { return "En522"; } static std::vector<EV> get() { return {{"En522_A", uint64_t(En522::En522_A)}, {"En522_AB", uint64_t(En522::En522_AB)}, {"En522_Ba", uint64_t(En522::En522_Ba)}}; } };
template <> struct EnumOf<En523> { typedef En523_Cls C; static const char *name() { return "En523"; } static std::vector<EV> get() { return {{"En523_A", uint64_t(En523::En523_A)}, {"En523_AB", uint64_t(En523::En523_AB)}, {"En523_Ba", uint64_t(En523::En523_Ba)}}; } };
template <> struct EnumOf<En524> { typedef En524_Cls C; static const char *name() { return "En524"; } static std::vector<EV> get() { return {{"En524_A", uint64_t(En524::En524_A)}, {"En524_AB", uint64_t(En524::En524_AB)}, {"En524_Ba", uint64_t(En524::En524_Ba)}}; } };
template <> struct EnumOf<En525> { typedef En525_Cls C; static const char *name() { return "En525"; } static std::vector<EV> get() { return {{"En525_A", uint64_t(En525::En525_A)}, {"En525_AB", uint64_t(En525::En525_AB)}, {"En525_Ba", uint64_t(En525::En525_Ba)}}; } };
template <> struct EnumOf<En526> { typedef En526_Cls C; static const char *name() { return "En526"; } static std::vector<EV> get() { return {{"En526_A", uint64_t(En526::En526_A)}, {"En526_AB", uint64_t(En526::En526_AB)}, {"En526_Ba", uint64_t(En526::En526_Ba)}}; } };
template <> struct EnumOf<En527> { typedef En527_Cls C; static const char *name() { return "En527"; } static std::vector<EV> get() { return {{"En527_A", uint64_t(En527::En527_A)}, {"En527_AB", uint64_t(En527::En527_AB)}, {"En527_Ba", uint64_t(En527::En527_Ba)}}; } };
template <> struct EnumOf<En528> { typedef En528_Cls C; static const char *name() { return "En528"; } static std::vector<EV> get() { return {{"En528_A", uint64_t(En528::En528_A)}, {"En528_AB", uint64_t(En528::En528_AB)}, {"En528_Ba", uint64_t(En528::En528_Ba)}}; } };
template <> struct EnumOf<En529> { typedef En529_Cls C; static const char *name() { return "En529"; } static std::vector<EV> get() { return {{"En529_A", uint64_t(En529::En529_A)}, {"En529_AB", uint64_t(En529::En529_AB)}, {"En529_Ba", uint64_t(En529::En529_Ba)}}; } };
template <> struct EnumOf<En530> { typedef En530_Cls C; static const char *name() { return "En530"; } static std::vector<EV> get() { return {{"En530_A", uint64_t(En530::En530_A)}, {"En530_AB", uint64_t(En530::En530_AB)}, {"En530_Ba", uint64_t(En530::En530_Ba)}}; } };
template <> struct EnumOf<En531> { typedef En531_Cls C; static const char *name() { return "En531"; } static std::vector<EV> get() { return {{"En531_A", uint64_t(En531::En531_A)}, {"En531_AB", uint64_t(En531::En531_AB)}, {"En531_Ba", uint64_t(En531::En531_Ba)}}; } };
template <> struct EnumOf<En532> { typedef En532_Cls C; static const char *name() { return "En532"; } static std::vector<EV> get() { return {{"En532_A", uint64_t(En532::En532_A)}, {"En532_AB", uint64_t(En532::En532_AB)}, {"En532_Ba", uint64_t(En532::En532_Ba)}}; } };
template <> struct EnumOf<En533> { typedef En533_Cls C; static const char *name() { return "En533"; } static std::vector<EV> get() { return {{"En533_A", uint64_t(En533::En533_A)}, {"En533_AB", uint64_t(En533::En533_AB)}, {"En533_Ba", uint64_t(En533::En533_Ba)}}; } };
template <> struct EnumOf<En534> { typedef En534_Cls C; static const char *name() { return "En534"; } static std::vector<EV> get() { return {{"En534_A", uint64_t(En534::En534_A)}, {"En534_AB", uint64_t(En534::En534_AB)}, {"En534_Ba", uint64_t(En534::En534_Ba)}}; } };
template <> struct EnumOf<En535> { typedef En535_Cls C; static const char *name() { return "En535"; } static std::vector<EV> get() { return {{"En535_A", uint64_t(En535::En535_A)}, {"En535_AB", uint64_t(En535::En535_AB)}, {"En535_Ba", uint64_t(En535::En535_Ba)}}; } };
template <> struct EnumOf<En536> { typedef En536_Cls C; static const char *name() { return "En536"; } static std::vector<EV> get() { return {{"En536_A", uint64_t(En536::En536_A)}, {"En536_AB", uint64_t(En536::En536_AB)}, {"En536_Ba", uint64_t(En536::En536_Ba)}}; } };
template <> struct EnumOf<En537> { typedef En537_Cls C; static const char *name() { return "En537"; } static std::vector<EV> get() { return {{"En537_A", uint64_t(En537::En537_A)}, {"En537_AB", uint64_t(En537::En537_AB)}, {"En537_Ba", uint64_t(En537::En537_Ba)}}; } };
template <> struct EnumOf<En538> { typedef En538_Cls C; static const char *name() { return "En538"; } static std::vector<EV> get() { return {{"En538_A", uint64_t(En538::En538_A)}, {"En538_AB", uint64_t(En538::En538_AB)}, {"En538_Ba", uint64_t(En538::En538_Ba)}}; } };
template <> struct EnumOf<En539> { typedef En539_Cls C; static const char *name() { return "En539"; } static std::vector<EV> get() { return {{"En539_A", uint64_t(En539::En539_A)}, {"En539_AB", uint64_t(En539::En539_AB)}, {"En539_Ba", uint64_t(En539::En539_Ba)}}; } };
template <> struct EnumOf<En540> { typedef En540_Cls C; static const char *name() { return "En540"; } static std::vector<EV> get() { return {{"En540_A", uint64_t(En540::En540_A)}, {"En540_AB", uint64_t(En540::En540_AB)}, {"En540_Ba", uint64_t(En540::En540_Ba)}}; } };
template <> struct EnumOf<En541> { typedef En541_Cls C; static const char *name() { return "En541"; } static std::vector<EV> get() { return {{"En541_A", uint64_t(En541::En541_A)}, {"En541_AB", uint64_t(En541::En541_AB)}, {"En541_Ba", uint64_t(En541::En541_Ba)}}; } };
template <> struct EnumOf<En542> { typedef En542_Cls C; static const char *name() { return "En542"; } static std::vector<EV> get() { return {{"En542_A", uint64_t(En542::En542_A)}, {"En542_AB", uint64_t(En542::En542_AB)}, {"En542_Ba", uint64_t(En542::En542_Ba)}}; } };
template <> struct EnumOf<En543> { typedef En543_Cls C; static const char *name() { return "En543"; } static std::vector<EV> get() { return {{"En543_A", uint64_t(En543::En543_A)}, {"En543_AB", uint64_t(En543::En543_AB)}, {"En543_Ba", uint64_t(En543::En543_Ba)}}; } };
template <> struct EnumOf<En544> { typedef En544_Cls C; static const char *name() { return "En544"; } static std::vector<EV> get() { return {{"En544_A", uint64_t(En544::En544_A)}, {"En544_AB", uint64_t(En544::En544_AB)}, {"En544_Ba", uint64_t(En544::En544_Ba)}}; } };
template <> struct EnumOf<En545> { typedef En545_Cls C; static const char *name() { return "En545"; } static std::vector<EV> get() { return {{"En545_A", uint64_t(En545::En545_A)}, {"En545_AB", uint64_t(En545::En545_AB)}, {"En545_Ba", uint64_t(En545::En545_Ba)}}; } };
template <> struct EnumOf<En546> { typedef En546_Cls C; static const char *name() { return "En546"; } static std::vector<EV> get() { return {{"En546_A", uint64_t(En546::En546_A)}, {"En546_AB", uint64_t(En546::En546_AB)}, {"En546_Ba", uint64_t(En546::En546_Ba)}}; } };
template <> struct EnumOf<En547> { typedef En547_Cls C; static const char *name() { return "En547"; } static std::vector<EV> get() { return {{"En547_A", uint64_t(En547::En547_A)}, {"En547_AB", uint64_t(En547::En547_AB)}, {"En547_Ba", uint64_t(En547::En547_Ba)}}; } };
template <> struct EnumOf<En548> { typedef En548_Cls C; static const char *name() { return "En548"; } static std::vector<EV> get() { return {{"En548_A", uint64_t(En548::En548_A)}, {"En548_AB", uint64_t(En548::En548_AB)}, {"En548_Ba", uint64_t(En548::En548_Ba)}}; } };
template <> struct EnumOf<En549> { typedef En549_Cls C; static const char *name() { return "En549"; } static std::vector<EV> get() { return {{"En549_A", uint64_t(En549::En549_A)}, {"En549_AB", uint64_t(En549::En549_AB)}, {"En549_Ba", uint64_t(En549::En549_Ba)}}; } };
template <> struct EnumOf<En550> { typedef En550_Cls C; static const char *name() { return "En550"; } static std::vector<EV> get() { return {{"En550_A", uint64_t(En550::En550_A)}, {"En550_AB", uint64_t(En550::En550_AB)}, {"En550_Ba", uint64_t(En550::En550_Ba)}}; } };
template <> struct EnumOf<En551> { typedef En551_Cls C; static const char *name() { return "En551"; } static std::vector<EV> get() { return {{"En551_A", uint64_t(En551::En551_A)}, {"En551_AB", uint64_t(En551::En551_AB)}, {"En551_Ba", uint64_t(En551::En551_Ba)}}; } };
template <> struct EnumOf<En552> { typedef En552_Cls C; static const char *name() { return "En552"; } static std::vector<EV> get() { return {{"En552_A", uint64_t(En552::En552_A)}, {"En552_AB", uint64_t(En552::En552_AB)}, {"En552_Ba", uint64_t(En552::En552_Ba)}}; } };
template <> struct EnumOf<En553> { typedef En553_Cls C; static const char *name() { return "En553"; } static std::vector<EV> get() { return {{"En553_A", uint64_t(En553::En553_A)}, {"En553_AB", uint64_t(En553::En553_AB)}, {"En553_Ba", uint64_t(En553::En553_Ba)}}; } };
template <> struct EnumOf<En554> { typedef En554_Cls C; static const char *name() { return "En554"; } static std::vector<EV> get() { return {{"En554_A", uint64_t(En554::En554_A)}, {"En554_AB", uint64_t(En554::En554_AB)}, {"En554_Ba", uint64_t(En554::En554_Ba)}}; } };
template <> struct EnumOf<En555> { typedef En555_Cls C; static const char *name() { return "En555"; } static std::vector<EV> get() { return {{"En555_A", uint64_t(En555::En555_A)}, {"En555_AB", uint64_t(En555::En555_AB)}, {"En555_Ba", uint64_t(En555::En555_Ba)}}; } };
template <> struct EnumOf<En556> { typedef En556_Cls C; static const char *name() { return "En556"; } static std::vector<EV> get() { return {{"En556_A", uint64_t(En556::En556_A)}, {"En556_AB", uint64_t(En556::En556_AB)}, {"En556_Ba", uint64_t(En556::En556_Ba)}}; } };
template <> struct EnumOf<En557> { typedef En557_Cls C; static const char *name() { return "En557"; } static std::vector<EV> get() { return {{"En557_A", uint64_t(En557::En557_A)}, {"En557_AB", uint64_t(En557::En557_AB)}, {"En557_Ba", uint64_t(En557::En557_Ba)}}; } };
template <> struct EnumOf<En558> { typedef En558_Cls C; static const char *name() { return "En558"; } static std::vector<EV> get() { return {{"En558_A", uint64_t(En558::En558_A)}, {"En558_AB", uint64_t(En558::En558_AB)}, {"En558_Ba", uint64_t(En558::En558_Ba)}}; } };
template <> struct EnumOf<En559> { typedef En559_Cls C; static const char *name() { return "En559"; } static std::vector<EV> get() { return {{"En559_A", uint64_t(En559::En559_A)}, {"En559_AB", uint64_t(En559::En559_AB)}, {"En559_Ba", uint64_t(En559::En559_Ba)}}; } };
template <> struct EnumOf<En560> { typedef En560_Cls C; static const char *name() { return "En560"; } static std::vector<EV> get() { return {{"En560_A", uint64_t(En560::En560_A)}, {"En560_AB", uint64_t(En560::En560_AB)}, {"En560_Ba", uint64_t(En560::En560_Ba)}}; } };
template <> struct EnumOf<En561> { typedef En561_Cls C; static const char *name() { return "En561"; } static std::vector<EV> get() { return {{"En561_A", uint64_t(En561::En561_A)}, {"En561_AB", uint64_t(En561::En561_AB)}, {"En561_Ba", uint64_t(En561::En561_Ba)}}; } };
template <> struct EnumOf<En562> { typedef En562_Cls C; static const char *name() { return "En562"; } static std::vector<EV> get() { return {{"En562_A", uint64_t(En562::En562_A)}, {"En562_AB", uint64_t(En562::En562_AB)}, {"En562_Ba", uint64_t(En562::En562_Ba)}}; } };
template <> struct EnumOf<En563> { typedef En563_Cls C; static const char *name() { return "En563"; } static std::vector<EV> get() { return {{"En563_A", uint64_t(En563::En563_A)}, {"En563_AB", uint64_t(En563::En563_AB)}, {"En563_Ba", uint64_t(En563::En563_Ba)}}; } };
template <> struct EnumOf<En564> { typedef En564_Cls C; static const char *name() { return "En564"; } static std::vector<EV> get() { return {{"En564_A", uint64_t(En564::En564_A)}, {"En564_AB", uint64_t(En564::En564_AB)}, {"En564_Ba", uint64_t(En564::En564_Ba)}}; } };
template <> struct EnumOf<En565> { typedef En565_Cls C; static const char *name() { return "En565"; } static std::vector<EV> get() { return {{"En565_A", uint64_t(En565::En565_A)}, {"En565_AB", uint64_t(En565::En565_AB)}, {"En565_Ba", uint64_t(En565::En565_Ba)}}; } };
template <> struct EnumOf<En566> { typedef En566_Cls C; static const char *name() { return "En566"; } static std::vector<EV> get() { return {{"En566_A", uint64_t(En566::En566_A)}, {"En566_AB", uint64_t(En566::En566_AB)}, {"En566_Ba", uint64_t(En566::En566_Ba)}}; } };
template <> struct EnumOf<En567> { typedef En567_Cls C; static const char *name() { return "En567"; } static std::vector<EV> get() { return {{"En567_A", uint64_t(En567::En567_A)}, {"En567_AB", uint64_t(En567::En567_AB)}, {"En567_Ba", uint64_t(En567::En567_Ba)}}; } };
template <> struct EnumOf<En568> { typedef En568_Cls C; static const char *name() { return "En568"; } static std::vector<EV> get() { return {{"En568_A", uint64_t(En568::En568_A)}, {"En568_AB", uint64_t(En568::En568_AB)}, {"En568_Ba", uint64_t(En568::En568_Ba)}}; } };
template <> struct EnumOf<En569> { typedef En569_Cls C; static const char *name() { return "En569"; } static std::vector<EV> get() { return {{"En569_A", uint64_t(En569::En569_A)}, {"En569_AB", uint64_t(En569::En569_AB)}, {"En569_Ba", uint64_t(En569::En569_Ba)}}; } };
template <> struct EnumOf<En570> { typedef En570_Cls C; static const char *name() { return "En570"; } static std::vector<EV> get() { return {{"En570_A", uint64_t(En570::En570_A)}, {"En570_AB", uint64_t(En570::En570_AB)}, {"En570_Ba", uint64_t(En570::En570_Ba)}}; } };
template <> struct EnumOf<En571> { typedef En571_Cls C; static const char *name() { return "En571"; } static std::vector<EV> get() { return {{"En571_A", uint64_t(En571::En571_A)}, {"En571_AB", uint64_t(En571::En571_AB)}, {"En571_Ba", uint64_t(En571::En571_Ba)}}; } };
template <> struct EnumOf<En572> { typedef En572_Cls C; static const char *name() { return "En572"; } static std::vector<EV> get() { return {{"En572_A", uint64_t(En572::En572_A)}, {"En572_AB", uint64_t(En572::En572_AB)}, {"En572_Ba", uint64_t(En572::En572_Ba)}}; } };
template <> struct EnumOf<En573> { typedef En573_Cls C; static const char *name() { return "En573"; } static std::vector<EV> get() { return {{"En573_A", uint64_t(En573::En573_A)}, {"En573_AB", uint64_t(En573::En573_AB)}, {"En573_Ba", uint64_t(En573::En573_Ba)}}; } };
template <> struct EnumOf<En574> { typedef En574_Cls C; static const char *name() { return "En574"; } static std::vector<EV> get() { return {{"En574_A", uint64_t(En574::En574_A)}, {"En574_AB", uint64_t(En574::En574_AB)}, {"En574_Ba", uint64_t(En574::En574_Ba)}}; } };
template <> struct EnumOf<En575> { typedef En575_Cls C; static const char *name() { return "En575"; } static std::vector<EV> get() { return {{"En575_A", uint64_t(En575::En575_A)}, {"En575_AB", uint64_t(En575::En575_AB)}, {"En575_Ba", uint64_t(En575::En575_Ba)}}; } };
template <> struct EnumOf<En576> { typedef En576_Cls C; static const char *name() { return "En576"; } static std::vector<EV> get() { return {{"En576_A", uint64_t(En576::En576_A)}, {"En576_AB", uint64_t(En576::En576_AB)}, {"En576_Ba", uint64_t(En576::En576_Ba)}}; } };
template <> struct EnumOf<En577> { typedef En577_Cls C; static const char *name() { return "En577"; } static std::vector<EV> get() { return {{"En577_A", uint64_t(En577::En577_A)}, {"En577_AB", uint64_t(En577::En577_AB)}, {"En577_Ba", uint64_t(En577::En577_Ba)}}; } };
template <> struct EnumOf<En578> { typedef En578_Cls C; static const char *name() { return "En578"; } static std::vector<EV> get() { return {{"En578_A", uint64_t(En578::En578_A)}, {"En578_AB", uint64_t(En578::En578_AB)}, {"En578_Ba", uint64_t(En578::En578_Ba)}}; } };
template <> struct EnumOf<En579> { typedef En579_Cls C; static const char *name() { return "En579"; } static std::vector<EV> get() { return {{"En579_A", uint64_t(En579::En579_A)}, {"En579_AB", uint64_t(En579::En579_AB)}, {"En579_Ba", uint64_t(En579::En579_Ba)}}; } };
template <> struct EnumOf<En580> { typedef En580_Cls C; static const char *name() { return "En580"; } static std::vector<EV> get() { return {{"En580_A", uint64_t(En580::En580_A)}, {"En580_AB", uint64_t(En580::En580_AB)}, {"En580_Ba", uint64_t(En580::En580_Ba)}}; } };
template <> struct EnumOf<En581> { typedef En581_Cls C; static const char *name() { return "En581"; } static std::vector<EV> get() { return {{"En581_A", uint64_t(En581::En581_A)}, {"En581_AB", uint64_t(En581::En581_AB)}, {"En581_Ba", uint64_t(En581::En581_Ba)}}; } };
template <> struct EnumOf<En582> { typedef En582_Cls C; static const char *name() { return "En582"; } static std::vector<EV> get() { return {{"En582_A", uint64_t(En582::En582_A)}, {"En582_AB", uint64_t(En582::En582_AB)}, {"En582_Ba", uint64_t(En582::En582_Ba)}}; } };
template <> struct EnumOf<En583> { typedef En583_Cls C; static const char *name() { return "En583"; } static std::vector<EV> get() { return {{"En583_A", uint64_t(En583::En583_A)}, {"En583_AB", uint64_t(En583::En583_AB)}, {"En583_Ba", uint64_t(En583::En583_Ba)}}; } };
template <> struct EnumOf<En584> { typedef En584_Cls C; static const char *name() { return "En584"; } static std::vector<EV> get() { return {{"En584_A", uint64_t(En584::En584_A)}, {"En584_AB", uint64_t(En584::En584_AB)}, {"En584_Ba", uint64_t(En584::En584_Ba)}}; } };
template <> struct EnumOf<En585> { typedef En585_Cls C; static const char *name() { return "En585"; } static std::vector<EV> get() { return {{"En585_A", uint64_t(En585::En585_A)}, {"En585_AB", uint64_t(En585::En585_AB)}, {"En585_Ba", uint64_t(En585::En585_Ba)}}; } };
template <> struct EnumOf<En586> { typedef En586_Cls C; static const char *name() { return "En586"; } static std::vector<EV> get() { return {{"En586_A", uint64_t(En586::En586_A)}, {"En586_AB", uint64_t(En586::En586_AB)}, {"En586_Ba", uint64_t(En586::En586_Ba)}}; } };
template <> struct EnumOf<En587> { typedef En587_Cls C; static const char *name() { return "En587"; } static std::vector<EV> get() { return {{"En587_A", uint64_t(En587::En587_A)}, {"En587_AB", uint64_t(En587::En587_AB)}, {"En587_Ba", uint64_t(En587::En587_Ba)}}; } };
template <> struct EnumOf<En588> { typedef En588_Cls C; static const char *name() { return "En588"; } static std::vector<EV> get() { return {{"En588_A", uint64_t(En588::En588_A)}, {"En588_AB", uint64_t(En588::En588_AB)}, {"En588_Ba", uint64_t(En588::En588_Ba)}}; } };
template <> struct EnumOf<En589> { typedef En589_Cls C; static const char *name() { return "En589"; } static std::vector<EV> get() { return {{"En589_A", uint64_t(En589::En589_A)}, {"En589_AB", uint64_t(En589::En589_AB)}, {"En589_Ba", uint64_t(En589::En589_Ba)}}; } };
template <> struct EnumOf<En590> { typedef En590_Cls C; static const char *name() { return "En590"; } static std::vector<EV> get() { return {{"En590_A", uint64_t(En590::En590_A)}, {"En590_AB", uint64_t(En590::En590_AB)}, {"En590_Ba", uint64_t(En590::En590_Ba)}}; } };
template <> struct EnumOf<En591> { typedef En591_Cls C; static const char *name() { return "En591"; } static std::vector<EV> get() { return {{"En591_A", uint64_t(En591::En591_A)}, {"En591_AB", uint64_t(En591::En591_AB)}, {"En591_Ba", uint64_t(En591::En591_Ba)}}; } };
template <> struct EnumOf<En592> { typedef En592_Cls C; static const char *name() { return "En592"; } static std::vector<EV> get() { return {{"En592_A", uint64_t(En592::En592_A)}, {"En592_AB", uint64_t(En592::En592_AB)}, {"En592_Ba", uint64_t(En592::En592_Ba)}}; } };
template <> struct EnumOf<En593> { typedef En593_Cls C; static const char *name() { return "En593"; } static std::vector<EV> get() { return {{"En593_A", uint64_t(En593::En593_A)}, {"En593_AB", uint64_t(En593::En593_AB)}, {"En593_Ba", uint64_t(En593::En593_Ba)}}; } };
template <> struct EnumOf<En594> { typedef En594_Cls C; static const char *name() { return "En594"; } static std::vector<EV> get() { return {{"En594_A", uint64_t(En594::En594_A)}, {"En594_AB", uint64_t(En594::En594_AB)}, {"En594_Ba", uint64_t(En594::En594_Ba)}}; } };
template <> struct EnumOf<En595> { typedef En595_Cls C; static const char *name() { return "En595"; } static std::vector<EV> get() { return {{"En595_A", uint64_t(En595::En595_A)}, {"En595_AB", uint64_t(En595::En595_AB)}, {"En595_Ba", uint64_t(En595::En595_Ba)}}; } };
template <> struct EnumOf<En596> { typedef En596_Cls C; static const char *name() { return "En596"; } static std::vector<EV> get() { return {{"En596_A", uint64_t(En596::En596_A)}, {"En596_AB", uint64_t(En596::En596_AB)}, {"En596_Ba", uint64_t(En596::En596_Ba)}}; } };
template <> struct EnumOf<En597> { typedef En597_Cls C; static const char *name() { return "En597"; } static std::vector<EV> get() { return {{"En597_A", uint64_t(En597::En597_A)}, {"En597_AB", uint64_t(En597::En597_AB)}, {"En597_Ba", uint64_t(En597::En597_Ba)}}; } };
template <> struct EnumOf<En598> { typedef En598_Cls C; static const char *name() { return "En598"; } static std::vector<EV> get() { return {{"En598_A", uint64_t(En598::En598_A)}, {"En598_AB", uint64_t(En598::En598_AB)}, {"En598_Ba", uint64_t(En598::En598_Ba)}}; } };
template <> struct EnumOf<En599> { typedef En599_Cls C; static const char *name() { return "En599"; } static std::vector<EV> get() { return {{"En599_A", uint64_t(En599::En599_A)}, {"En599_AB", uint64_t(En599::En599_AB)}, {"En599_Ba", uint64_t(En599::En599_Ba)}}; } };
template <> struct EnumOf<En600> { typedef En600_Cls C; static const char *name() { return "En600"; } static std::vector<EV> get() { return {{"En600_A", uint64_t(En600::En600_A)}, {"En600_AB", uint64_t(En600::En600_AB)}, {"En600_Ba", uint64_t(En600::En600_Ba)}}; } };
template <> struct EnumOf<En601> { typedef En601_Cls C; static const char *name() { return "En601"; } static std::vector<EV> get() { return {{"En601_A", uint64_t(En601::En601_A)}, {"En601_AB", uint64_t(En601::En601_AB)}, {"En601_Ba", uint64_t(En601::En601_Ba)}}; } };
template <> struct EnumOf<En602> { typedef En602_Cls C; static const char *name() { return "En602"; } static std::vector<EV> get() { return {{"En602_A", uint64_t(En602::En602_A)}, {"En602_AB", uint64_t(En602::En602_AB)}, {"En602_Ba", uint64_t(En602::En602_Ba)}}; } };
template <> struct EnumOf<En603> { typedef En603_Cls C; static const char *name() { return "En603"; } static std::vector<EV> get() { return {{"En603_A", uint64_t(En603::En603_A)}, {"En603_AB", uint64_t(En603::En603_AB)}, {"En603_Ba", uint64_t(En603::En603_Ba)}}; } };
template <> struct EnumOf<En604> { typedef En604_Cls C; static const char *name() { return "En604"; } static std::vector<EV> get() { return {{"En604_A", uint64_t(En604::En604_A)}, {"En604_AB", uint64_t(En604::En604_AB)}, {"En604_Ba", uint64_t(En604::En604_Ba)}}; } };
template <> struct EnumOf<En605> { typedef En605_Cls C; static const char *name() { return "En605"; } static std::vector<EV> get() { return {{"En605_A", uint64_t(En605::En605_A)}, {"En605_AB", uint64_t(En605::En605_AB)}, {"En605_Ba", uint64_t(En605::En605_Ba)}}; } };
template <> struct EnumOf<En606> { typedef En606_Cls C; static const char *name() { return "En606"; } static std::vector<EV> get() { return {{"En606_A", uint64_t(En606::En606_A)}, {"En606_AB", uint64_t(En606::En606_AB)}, {"En606_Ba", uint64_t(En606::En606_Ba)}}; } };
template <> struct EnumOf<En607> { typedef En607_Cls C; static const char *name() { return "En607"; } static std::vector<EV> get() { return {{"En607_A", uint64_t(En607::En607_A)}, {"En607_AB", uint64_t(En607::En607_AB)}, {"En607_Ba", uint64_t(En607::En607_Ba)}}; } };
template <> struct EnumOf<En608> { typedef En608_Cls C; static const char *name() { return "En608"; } static std::vector<EV> get() { return {{"En608_A", uint64_t(En608::En608_A)}, {"En608_AB", uint64_t(En608::En608_AB)}, {"En608_Ba", uint64_t(En608::En608_Ba)}}; } };
template <> struct EnumOf<En609> { typedef En609_Cls C; static const char *name() { return "En609"; } static std::vector<EV> get() { return {{"En609_A", uint64_t(En609::En609_A)}, {"En609_AB", uint64_t(En609::En609_AB)}, {"En609_Ba", uint64_t(En609::En609_Ba)}}; } };
template <> struct EnumOf<En610> { typedef En610_Cls C; static const char *name() { return "En610"; } static std::vector<EV> get() { return {{"En610_A", uint64_t(En610::En610_A)}, {"En610_AB", uint64_t(En610::En610_AB)}, {"En610_Ba", uint64_t(En610::En610_Ba)}}; } };
template <> struct EnumOf<En611> { typedef En611_Cls C; static const char *name() { return "En611"; } static std::vector<EV> get() { return {{"En611_A", uint64_t(En611::En611_A)}, {"En611_AB", uint64_t(En611::En611_AB)}, {"En611_Ba", uint64_t(En611::En611_Ba)}}; } };
template <> struct EnumOf<En612> { typedef En612_Cls C; static const char *name() { return "En612"; } static std::vector<EV> get() { return {{"En612_A", uint64_t(En612::En612_A)}, {"En612_AB", uint64_t(En612::En612_AB)}, {"En612_Ba", uint64_t(En612::En612_Ba)}}; } };
template <> struct EnumOf<En613> { typedef En613_Cls C; static const char *name() { return "En613"; } static std::vector<EV> get() { return {{"En613_A", uint64_t(En613::En613_A)}, {"En613_AB", uint64_t(En613::En613_AB)}, {"En613_Ba", uint64_t(En613::En613_Ba)}}; } };
template <> struct EnumOf<En614> { typedef En614_Cls C; static const char *name() { return "En614"; } static std::vector<EV> get() { return {{"En614_A", uint64_t(En614::En614_A)}, {"En614_AB", uint64_t(En614::En614_AB)}, {"En614_Ba", uint64_t(En614::En614_Ba)}}; } };
template <> struct EnumOf<En615> { typedef En615_Cls C; static const char *name() { return "En615"; } static std::vector<EV> get() { return {{"En615_A", uint64_t(En615::En615_A)}, {"En615_AB", uint64_t(En615::En615_AB)}, {"En615_Ba", uint64_t(En615::En615_Ba)}}; } };
template <> struct EnumOf<En616> { typedef En616_Cls C; static const char *name() { return "En616"; } static std::vector<EV> get() { return {{"En616_A", uint64_t(En616::En616_A)}, {"En616_AB", uint64_t(En616::En616_AB)}, {"En616_Ba", uint64_t(En616::En616_Ba)}}; } };
template <> struct EnumOf<En617> { typedef En617_Cls C; static const char *name() { return "En617"; } static std::vector<EV> get() { return {{"En617_A", uint64_t(En617::En617_A)}, {"En617_AB", uint64_t(En617::En617_AB)}, {"En617_Ba", uint64_t(En617::En617_Ba)}}; } };
template <> struct EnumOf<En618> { typedef En618_Cls C; static const char *name() { return "En618"; } static std::vector<EV> get() { return {{"En618_A", uint64_t(En618::En618_A)}, {"En618_AB", uint64_t(En618::En618_AB)}, {"En618_Ba", uint64_t(En618::En618_Ba)}}; } };
template <> struct EnumOf<En619> { typedef En619_Cls C; static const char *name() { return "En619"; } static std::vector<EV> get() { return {{"En619_A", uint64_t(En619::En619_A)}, {"En619_AB", uint64_t(En619::En619_AB)}, {"En619_Ba", uint64_t(En619::En619_Ba)}}; } };
template <> struct EnumOf<En620> { typedef En620_Cls C; static const char *name() { return "En620"; } static std::vector<EV> get() { return {{"En620_A", uint64_t(En620::En620_A)}, {"En620_AB", uint64_t(En620::En620_AB)}, {"En620_Ba", uint64_t(En620::En620_Ba)}}; } };
template <> struct EnumOf<En621> { typedef En621_Cls C; static const char *name() { return "En621"; } static std::vector<EV> get() { return {{"En621_A", uint64_t(En621::En621_A)}, {"En621_AB", uint64_t(En621::En621_AB)}, {"En621_Ba", uint64_t(En621::En621_Ba)}}; } };
template <> struct EnumOf<En622> { typedef En622_Cls C; static const char *name() { return "En622"; } static std::vector<EV> get() { return {{"En622_A", uint64_t(En622::En622_A)}, {"En622_AB", uint64_t(En622::En622_AB)}, {"En622_Ba", uint64_t(En622::En622_Ba)}}; } };
template <> struct EnumOf<En623> { typedef En623_Cls C; static const char *name() { return "En623"; } static std::vector<EV> get() { return {{"En623_A", uint64_t(En623::En623_A)}, {"En623_AB", uint64_t(En623::En623_AB)}, {"En623_Ba", uint64_t(En623::En623_Ba)}}; } };
template <> struct EnumOf<En624> { typedef En624_Cls C; static const char *name() { return "En624"; } static std::vector<EV> get() { return {{"En624_A", uint64_t(En624::En624_A)}, {"En624_AB", uint64_t(En624::En624_AB)}, {"En624_Ba", uint64_t(En624::En624_Ba)}}; } };
template <> struct EnumOf<En625> { typedef En625_Cls C; static const char *name() { return "En625"; } static std::vector<EV> get() { return {{"En625_A", uint64_t(En625::En625_A)}, {"En625_AB", uint64_t(En625::En625_AB)}, {"En625_Ba", uint64_t(En625::En625_Ba)}}; } };
template <> struct EnumOf<En626> { typedef En626_Cls C; static const char *name() { return "En626"; } static std::vector<EV> get() { return {{"En626_A", uint64_t(En626::En626_A)}, {"En626_AB", uint64_t(En626::En626_AB)}, {"En626_Ba", uint64_t(En626::En626_Ba)}}; } };
template <> struct EnumOf<En627> { typedef En627_Cls C; static const char *name() { return "En627"; } static std::vector<EV> get() { return {{"En627_A", uint64_t(En627::En627_A)}, {"En627_AB", uint64_t(En627::En627_AB)}, {"En627_Ba", uint64_t(En627::En627_Ba)}}; } };
template <> struct EnumOf<En628> { typedef En628_Cls C; static const char *name() { return "En628"; } static std::vector<EV> get() { return {{"En628_A", uint64_t(En628::En628_A)}, {"En628_AB", uint64_t(En628::En628_AB)}, {"En628_Ba", uint64_t(En628::En628_Ba)}}; } };
template <> struct EnumOf<En629> { typedef En629_Cls C; static const char *name() { return "En629"; } static std::vector<EV> get() { return {{"En629_A", uint64_t(En629::En629_A)}, {"En629_AB", uint64_t(En629::En629_AB)}, {"En629_Ba", uint64_t(En629::En629_Ba)}}; } };
template <> struct EnumOf<En630> { typedef En630_Cls C; static const char *name() { return "En630"; } static std::vector<EV> get() { return {{"En630_A", uint64_t(En630::En630_A)}, {"En630_AB", uint64_t(En630::En630_AB)}, {"En630_Ba", uint64_t(En630::En630_Ba)}}; } };
template <> struct EnumOf<En631> { typedef En631_Cls C; static const char *name() { return "En631"; } static std::vector<EV> get() { return {{"En631_A", uint64_t(En631::En631_A)}, {"En631_AB", uint64_t(En631::En631_AB)}, {"En631_Ba", uint64_t(En631::En631_Ba)}}; } };
template <> struct EnumOf<En632> { typedef En632_Cls C; static const char *name() { return "En632"; } static std::vector<EV> get() { return {{"En632_A", uint64_t(En632::En632_A)}, {"En632_AB", uint64_t(En632::En632_AB)}, {"En632_Ba", uint64_t(En632::En632_Ba)}}; } };
template <> struct EnumOf<En633> { typedef En633_Cls C; static const char *name() { return "En633"; } static std::vector<EV> get() { return {{"En633_A", uint64_t(En633::En633_A)}, {"En633_AB", uint64_t(En633::En633_AB)}, {"En633_Ba", uint64_t(En633::En633_Ba)}}; } };
template <> struct EnumOf<En634> { typedef En634_Cls C; static const char *name() { return "En634"; } static std::vector<EV> get() { return {{"En634_A", uint64_t(En634::En634_A)}, {"En634_AB", uint64_t(En634::En634_AB)}, {"En634_Ba", uint64_t(En634::En634_Ba)}}; } };
template <> struct EnumOf<En635> { typedef En635_Cls C; static const char *name() { return "En635"; } static std::vector<EV> get() { return {{"En635_A", uint64_t(En635::En635_A)}, {"En635_AB", uint64_t(En635::En635_AB)}, {"En635_Ba", uint64_t(En635::En635_Ba)}}; } };
template <> struct EnumOf<En636> { typedef En636_Cls C; static const char *name() { return "En636"; } static std::vector<EV> get() { return {{"En636_A", uint64_t(En636::En636_A)}, {"En636_AB", uint64_t(En636::En636_AB)}, {"En636_Ba", uint64_t(En636::En636_Ba)}}; } };
template <> struct EnumOf<En637> { typedef En637_Cls C; static const char *name() { return "En637"; } static std::vector<EV> get() { return {{"En637_A", uint64_t(En637::En637_A)}, {"En637_AB", uint64_t(En637::En637_AB)}, {"En637_Ba", uint64_t(En637::En637_Ba)}}; } };
template <> struct EnumOf<En638> { typedef En638_Cls C; static const char *name() { return "En638"; } static std::vector<EV> get() { return {{"En638_A", uint64_t(En638::En638_A)}, {"En638_AB", uint64_t(En638::En638_AB)}, {"En638_Ba", uint64_t(En638::En638_Ba)}}; } };
template <> struct EnumOf<En639> { typedef En639_Cls C; static const char *name() { return "En639"; } static std::vector<EV> get() { return {{"En639_A", uint64_t(En639::En639_A)}, {"En639_AB", uint64_t(En639::En639_AB)}, {"En639_Ba", uint64_t(En639::En639_Ba)}}; } };
template <> struct EnumOf<En640> { typedef En640_Cls C; static const char *name() { return "En640"; } static std::vector<EV> get() { return {{"En640_A", uint64_t(En640::En640_A)}, {"En640_AB", uint64_t(En640::En640_AB)}, {"En640_Ba", uint64_t(En640::En640_Ba)}}; } };
template <> struct EnumOf<En641> { typedef En641_Cls C; static const char *name() { return "En641"; } static std::vector<EV> get() { return {{"En641_A", uint64_t(En641::En641_A)}, {"En641_AB", uint64_t(En641::En641_AB)}, {"En641_Ba", uint64_t(En641::En641_Ba)}}; } };
template <> struct EnumOf<En642> { typedef En642_Cls C; static const char *name() { return "En642"; } static std::vector<EV> get() { return {{"En642_A", uint64_t(En642::En642_A)}, {"En642_AB", uint64_t(En642::En642_AB)}, {"En642_Ba", uint64_t(En642::En642_Ba)}}; } };
template <> struct EnumOf<En643> { typedef En643_Cls C; static const char *name() { return "En643"; } static std::vector<EV> get() { return {{"En643_A", uint64_t(En643::En643_A)}, {"En643_AB", uint64_t(En643::En643_AB)}, {"En643_Ba", uint64_t(En643::En643_Ba)}}; } };
template <> struct EnumOf<En644> { typedef En644_Cls C; static const char *name() { return "En644"; } static std::vector<EV> get() { return {{"En644_A", uint64_t(En644::En644_A)}, {"En644_AB", uint64_t(En644::En644_AB)}, {"En644_Ba", uint64_t(En644::En644_Ba)}}; } };
template <> struct EnumOf<En645> { typedef En645_Cls C; static const char *name() { return "En645"; } static std::vector<EV> get() { return {{"En645_A", uint64_t(En645::En645_A)}, {"En645_AB", uint64_t(En645::En645_AB)}, {"En645_Ba", uint64_t(En645::En645_Ba)}}; } };
template <> struct EnumOf<En646> { typedef En646_Cls C; static const char *name() { return "En646"; } static std::vector<EV> get() { return {{"En646_A", uint64_t(En646::En646_A)}, {"En646_AB", uint64_t(En646::En646_AB)}, {"En646_Ba", uint64_t(En646::En646_Ba)}}; } };
template <> struct EnumOf<En647> { typedef En647_Cls C; static const char *name() { return "En647"; } static std::vector<EV> get() { return {{"En647_A", uint64_t(En647::En647_A)}, {"En647_AB", uint64_t(En647::En647_AB)}, {"En647_Ba", uint64_t(En647::En647_Ba)}}; } };
template <> struct EnumOf<En648> { typedef En648_Cls C; static const char *name() { return "En648"; } static std::vector<EV> get() { return {{"En648_A", uint64_t(En648::En648_A)}, {"En648_AB", uint64_t(En648::En648_AB)}, {"En648_Ba", uint64_t(En648::En648_Ba)}}; } };
template <> struct EnumOf<En649> { typedef En649_Cls C; static const char *name() { return "En649"; } static std::vector<EV> get() { return {{"En649_A", uint64_t(En649::En649_A)}, {"En649_AB", uint64_t(En649::En649_AB)}, {"En649_Ba", uint64_t(En649::En649_Ba)}}; } };
template <> struct EnumOf<En650> { typedef En650_Cls C; static const char *name() { return "En650"; } static std::vector<EV> get() { return {{"En650_A", uint64_t(En650::En650_A)}, {"En650_AB", uint64_t(En650::En650_AB)}, {"En650_Ba", uint64_t(En650::En650_Ba)}}; } };
template <> struct EnumOf<En651> { typedef En651_Cls C; static const char *name() { return "En651"; } static std::vector<EV> get() { return {{"En651_A", uint64_t(En651::En651_A)}, {"En651_AB", uint64_t(En651::En651_AB)}, {"En651_Ba", uint64_t(En651::En651_Ba)}}; } };
template <> struct EnumOf<En652> { typedef En652_Cls C; static const char *name() { return "En652"; } static std::vector<EV> get() { return {{"En652_A", uint64_t(En652::En652_A)}, {"En652_AB", uint64_t(En652::En652_AB)}, {"En652_Ba", uint64_t(En652::En652_Ba)}}; } };
template <> struct EnumOf<En653> { typedef En653_Cls C; static const char *name() { return "En653"; } static std::vector<EV> get() { return {{"En653_A", uint64_t(En653::En653_A)}, {"En653_AB", uint64_t(En653::En653_AB)}, {"En653_Ba", uint64_t(En653::En653_Ba)}}; } };
template <> struct EnumOf<En654> { typedef En654_Cls C; static const char *name() { return "En654"; } static std::vector<EV> get() { return {{"En654_A", uint64_t(En654::En654_A)}, {"En654_AB", uint64_t(En654::En654_AB)}, {"En654_Ba", uint64_t(En654::En654_Ba)}}; } };
template <> struct EnumOf<En655> { typedef En655_Cls C; static const char *name() { return "En655"; } static std::vector<EV> get() { return {{"En655_A", uint64_t(En655::En655_A)}, {"En655_AB", uint64_t(En655::En655_AB)}, {"En655_Ba", uint64_t(En655::En655_Ba)}}; } };
template <> struct EnumOf<En656> { typedef En656_Cls C; static const char *name() { return "En656"; } static std::vector<EV> get() { return {{"En656_A", uint64_t(En656::En656_A)}, {"En656_AB", uint64_t(En656::En656_AB)}, {"En656_Ba", uint64_t(En656::En656_Ba)}}; } };
template <> struct EnumOf<En657> { typedef En657_Cls C; static const char *name() { return "En657"; } static std::vector<EV> get() { return {{"En657_A", uint64_t(En657::En657_A)}, {"En657_AB", uint64_t(En657::En657_AB)}, {"En657_Ba", uint64_t(En657::En657_Ba)}}; } };
template <> struct EnumOf<En658> { typedef En658_Cls C; static const char *name() { return "En658"; } static std::vector<EV> get() { return {{"En658_A", uint64_t(En658::En658_A)}, {"En658_AB", uint64_t(En658::En658_AB)}, {"En658_Ba", uint64_t(En658::En658_Ba)}}; } };
template <> struct EnumOf<En659> { typedef En659_Cls C; static const char *name() { return "En659"; } static std::vector<EV> get() { return {{"En659_A", uint64_t(En659::En659_A)}, {"En659_AB", uint64_t(En659::En659_AB)}, {"En659_Ba", uint64_t(En659::En659_Ba)}}; } };
template <> struct EnumOf<En660> { typedef En660_Cls C; static const char *name() { return "En660"; } static std::vector<EV> get() { return {{"En660_A", uint64_t(En660::En660_A)}, {"En660_AB", uint64_t(En660::En660_AB)}, {"En660_Ba", uint64_t(En660::En660_Ba)}}; } };
template <> struct EnumOf<En661> { typedef En661_Cls C; static const char *name() { return "En661"; } static std::vector<EV> get() { return {{"En661_A", uint64_t(En661::En661_A)}, {"En661_AB", uint64_t(En661::En661_AB)}, {"En661_Ba", uint64_t(En661::En661_Ba)}}; } };
template <> struct EnumOf<En662> { typedef En662_Cls C; static const char *name() { return "En662"; } static std::vector<EV> get() { return {{"En662_A", uint64_t(En662::En662_A)}, {"En662_AB", uint64_t(En662::En662_AB)}, {"En662_Ba", uint64_t(En662::En662_Ba)}}; } };
template <> struct EnumOf<En663> { typedef En663_Cls C; static const char *name() { return "En663"; } static std::vector<EV> get() { return {{"En663_A", uint64_t(En663::En663_A)}, {"En663_AB", uint64_t(En663::En663_AB)}, {"En663_Ba", uint64_t(En663::En663_Ba)}}; } };
template <> struct EnumOf<En664> { typedef En664_Cls C; static const char *name() { return "En664"; } static std::vector<EV> get() { return {{"En664_A", uint64_t(En664::En664_A)}, {"En664_AB", uint64_t(En664::En664_AB)}, {"En664_Ba", uint64_t(En664::En664_Ba)}}; } };
template <> struct EnumOf<En665> { typedef En665_Cls C; static const char *name() { return "En665"; } static std::vector<EV> get() { return {{"En665_A", uint64_t(En665::En665_A)}, {"En665_AB", uint64_t(En665::En665_AB)}, {"En665_Ba", uint64_t(En665::En665_Ba)}}; } };
template <> struct EnumOf<En666> { typedef En666_Cls C; static const char *name() { return "En666"; } static std::vector<EV> get() { return {{"En666_A", uint64_t(En666::En666_A)}, {"En666_AB", uint64_t(En666::En666_AB)}, {"En666_Ba", uint64_t(En666::En666_Ba)}}; } };
template <> struct EnumOf<En667> { typedef En667_Cls C; static const char *name() { return "En667"; } static std::vector<EV> get() { return {{"En667_A", uint64_t(En667::En667_A)}, {"En667_AB", uint64_t(En667::En667_AB)}, {"En667_Ba", uint64_t(En667::En667_Ba)}}; } };
template <> struct EnumOf<En668> { typedef En668_Cls C; static const char *name() { return "En668"; } static std::vector<EV> get() { return {{"En668_A", uint64_t(En668::En668_A)}, {"En668_AB", uint64_t(En668::En668_AB)}, {"En668_Ba", uint64_t(En668::En668_Ba)}}; } };
template <> struct EnumOf<En669> { typedef En669_Cls C; static const char *name() { return "En669"; } static std::vector<EV> get() { return {{"En669_A", uint64_t(En669::En669_A)}, {"En669_AB", uint64_t(En669::En669_AB)}, {"En669_Ba", uint64_t(En669::En669_Ba)}}; } };
template <> struct EnumOf<En670> { typedef En670_Cls C; static const char *name() { return "En670"; } static std::vector<EV> get() { return {{"En670_A", uint64_t(En670::En670_A)}, {"En670_AB", uint64_t(En670::En670_AB)}, {"En670_Ba", uint64_t(En670::En670_Ba)}}; } };
template <> struct EnumOf<En671> { typedef En671_Cls C; static const char *name() { return "En671"; } static std::vector<EV> get() { return {{"En671_A", uint64_t(En671::En671_A)}, {"En671_AB", uint64_t(En671::En671_AB)}, {"En671_Ba", uint64_t(En671::En671_Ba)}}; } };
template <> struct EnumOf<En672> { typedef En672_Cls C; static const char *name() { return "En672"; } static std::vector<EV> get() { return {{"En672_M", uint64_t(En672::En672_M)}, {"En672_Z", uint64_t(En672::En672_Z)}, {"En672_P", uint64_t(En672::En672_P)}, {"En672_N", uint64_t(En672::En672_N)}, {"En672_H", uint64_t(En672::En672_H)}, {"En672_I", uint64_t(En672::En672_I)}}; } };
template <> struct EnumOf<En673> { typedef En673_Cls C; static const char *name() { return "En673"; } static std::vector<EV> get() { return {{"En673_M", uint64_t(En673::En673_M)}, {"En673_Z", uint64_t(En673::En673_Z)}, {"En673_P", uint64_t(En673::En673_P)}, {"En673_Q", uint64_t(En673::En673_Q)}}; } };
template <> struct EnumOf<En674> { typedef En674_Cls C; static const char *name() { return "En674"; } static std::vector<EV> get() { return {{"En674_M", uint64_t(En674::En674_M)}, {"En674_Z", uint64_t(En674::En674_Z)}, {"En674_P", uint64_t(En674::En674_P)}, {"En674_N", uint64_t(En674::En674_N)}, {"En674_H", uint64_t(En674::En674_H)}, {"En674_I", uint64_t(En674::En674_I)}}; } };
template <> struct EnumOf<En675> { typedef En675_Cls C; static const char *name() { return "En675"; } static std::vector<EV> get() { return {{"En675_M", uint64_t(En675::En675_M)}, {"En675_Z", uint64_t(En675::En675_Z)}, {"En675_P", uint64_t(En675::En675_P)}, {"En675_Q", uint64_t(En675::En675_Q)}}; } };
template <> struct EnumOf<En676> { typedef En676_Cls C; static const char *name() { return "En676"; } static std::vector<EV> get() { return {{"En676_A", uint64_t(En676::En676_A)}, {"En676_B", uint64_t(En676::En676_B)}, {"En676_C", uint64_t(En676::En676_C)}, {"En676_D", uint64_t(En676::En676_D)}, {"En676_E", uint64_t(En676::En676_E)}, {"En676_F", uint64_t(En676::En676_F)}, {"En676_G", uint64_t(En676::En676_G)}, {"En676_H", uint64_t(En676::En676_H)}}; } };
template <> struct EnumOf<En677> { typedef En677_Cls C; static const char *name() { return "En677"; } static std::vector<EV> get() { return {{"En677_I0", uint64_t(En677::En677_I0)}, {"En677_I1", uint64_t(En677::En677_I1)}, {"En677_I2", uint64_t(En677::En677_I2)}, {"En677_I3", uint64_t(En677::En677_I3)}, {"En677_I4", uint64_t(En677::En677_I4)}, {"En677_I5", uint64_t(En677::En677_I5)}, {"En677_I6", uint64_t(En677::En677_I6)}, {"En677_I7", uint64_t(En677::En677_I7)}, {"En677_I8", uint64_t(En677::En677_I8)}, {"En677_I9", uint64_t(En677::En677_I9)}, {"En677_I10", uint64_t(En677::En677_I10)}, {"En677_I11", uint64_t(En677::En677_I11)}, {"En677_I12", uint64_t(En677::En677_I12)}, {"En677_I13", uint64_t(En677::En677_I13)}, {"En677_I14", uint64_t(En677::En677_I14)}, {"En677_I15", uint64_t(En677::En677_I15)}, {"En677_I16", uint64_t(En677::En677_I16)}, {"En677_I17", uint64_t(En677::En677_I17)}, {"En677_I18", uint64_t(En677::En677_I18)}, {"En677_I19", uint64_t(En677::En677_I19)}, {"En677_I20", uint64_t(En677::En677_I20)}, {"En677_I21", uint64_t(En677::En677_I21)}, {"En677_I22", uint64_t(En677::En677_I22)}, {"En677_I23", uint64_t(En677::En677_I23)}, {"En677_I24", uint64_t(En677::En677_I24)}, {"En677_I25", uint64_t(En677::En677_I25)}, {"En677_I26", uint64_t(En677::En677_I26)}, {"En677_I27", uint64_t(En677::En677_I27)}, {"En677_I28", uint64_t(En677::En677_I28)}, {"En677_I29", uint64_t(En677::En677_I29)}, {"En677_I30", uint64_t(En677::En677_I30)}, {"En677_I31", uint64_t(En677::En677_I31)}, {"En677_I32", uint64_t(En677::En677_I32)}, {"En677_I33", uint64_t(En677::En677_I33)}, {"En677_I34", uint64_t(En677::En677_I34)}, {"En677_I35", uint64_t(En677::En677_I35)}, {"En677_I36", uint64_t(En677::En677_I36)}, {"En677_I37", uint64_t(En677::En677_I37)}, {"En677_I38", uint64_t(En677::En677_I38)}, {"En677_I39", uint64_t(En677::En677_I39)}, {"En677_I40", uint64_t(En677::En677_I40)}, {"En677_I41", uint64_t(En677::En677_I41)}, {"En677_I42", uint64_t(En677::En677_I42)}, {"En677_I43", uint64_t(En677::En677_I43)}, {"En677_I44", uint64_t(En677::En677_I44)}, {"En677_I45", uint64_t(En677::En677_I45)}, {"En677_I46", uint64_t(En677::En677_I46)}, {"En677_I47", uint64_t(En677::En677_I47)}, {"En677_I48", uint64_t(En677::En677_I48)}, {"En677_I49", uint64_t(En677::En677_I49)}, {"En677_I50", uint64_t(En677::En677_I50)}, {"En677_I51", uint64_t(En677::En677_I51)}, {"En677_I52", uint64_t(En677::En677_I52)}, {"En677_I53", uint64_t(En677::En677_I53)}, {"En677_I54", uint64_t(En677::En677_I54)}, {"En677_I55", uint64_t(En677::En677_I55)}, {"En677_I56", uint64_t(En677::En677_I56)}, {"En677_I57", uint64_t(En677::En677_I57)}, {"En677_I58", uint64_t(En677::En677_I58)}, {"En677_I59", uint64_t(En677::En677_I59)}, {"En677_I60", uint64_t(En677::En677_I60)}, {"En677_I61", uint64_t(En677::En677_I61)}, {"En677_I62", uint64_t(En677::En677_I62)}}; } };
template <> struct EnumOf<En678> { typedef En678_Cls C; static const char *name() { return "En678"; } static std::vector<EV> get() { return {{"En678_Only", uint64_t(En678::En678_Only)}}; } };
template <> struct EnumOf<En679> { typedef En679_Cls C; static const char *name() { return "En679"; } static std::vector<EV> get() { return {{"En679_Only", uint64_t(En679::En679_Only)}}; } };
template <> struct EnumOf<En680> { typedef En680_Cls C; static const char *name() { return "En680"; } static std::vector<EV> get() { return {{"En680_A", uint64_t(En680::En680_A)}, {"En680_B", uint64_t(En680::En680_B)}, {"En680_C", uint64_t(En680::En680_C)}, {"En680_D", uint64_t(En680::En680_D)}, {"En680_E", uint64_t(En680::En680_E)}, {"En680_F", uint64_t(En680::En680_F)}, {"En680_G", uint64_t(En680::En680_G)}, {"En680_H", uint64_t(En680::En680_H)}}; } };
template <> struct EnumOf<En681> { typedef En681_Cls C; static const char *name() { return "En681"; } static std::vector<EV> get() { return {{"En681_I0", uint64_t(En681::En681_I0)}, {"En681_I1", uint64_t(En681::En681_I1)}, {"En681_I2", uint64_t(En681::En681_I2)}, {"En681_I3", uint64_t(En681::En681_I3)}, {"En681_I4", uint64_t(En681::En681_I4)}, {"En681_I5", uint64_t(En681::En681_I5)}, {"En681_I6", uint64_t(En681::En681_I6)}, {"En681_I7", uint64_t(En681::En681_I7)}, {"En681_I8", uint64_t(En681::En681_I8)}, {"En681_I9", uint64_t(En681::En681_I9)}, {"En681_I10", uint64_t(En681::En681_I10)}, {"En681_I11", uint64_t(En681::En681_I11)}, {"En681_I12", uint64_t(En681::En681_I12)}, {"En681_I13", uint64_t(En681::En681_I13)}, {"En681_I14", uint64_t(En681::En681_I14)}, {"En681_I15", uint64_t(En681::En681_I15)}, {"En681_I16", uint64_t(En681::En681_I16)}, {"En681_I17", uint64_t(En681::En681_I17)}, {"En681_I18", uint64_t(En681::En681_I18)}, {"En681_I19", uint64_t(En681::En681_I19)}, {"En681_I20", uint64_t(En681::En681_I20)}, {"En681_I21", uint64_t(En681::En681_I21)}, {"En681_I22", uint64_t(En681::En681_I22)}, {"En681_I23", uint64_t(En681::En681_I23)}, {"En681_I24", uint64_t(En681::En681_I24)}, {"En681_I25", uint64_t(En681::En681_I25)}, {"En681_I26", uint64_t(En681::En681_I26)}, {"En681_I27", uint64_t(En681::En681_I27)}, {"En681_I28", uint64_t(En681::En681_I28)}, {"En681_I29", uint64_t(En681::En681_I29)}, {"En681_I30", uint64_t(En681::En681_I30)}, {"En681_I31", uint64_t(En681::En681_I31)}, {"En681_I32", uint64_t(En681::En681_I32)}, {"En681_I33", uint64_t(En681::En681_I33)}, {"En681_I34", uint64_t(En681::En681_I34)}, {"En681_I35", uint64_t(En681::En681_I35)}, {"En681_I36", uint64_t(En681::En681_I36)}, {"En681_I37", uint64_t(En681::En681_I37)}, {"En681_I38", uint64_t(En681::En681_I38)}, {"En681_I39", uint64_t(En681::En681_I39)}, {"En681_I40", uint64_t(En681::En681_I40)}, {"En681_I41", uint64_t(En681::En681_I41)}, {"En681_I42", uint64_t(En681::En681_I42)}, {"En681_I43", uint64_t(En681::En681_I43)}, {"En681_I44", uint64_t(En681::En681_I44)}, {"En681_I45", uint64_t(En681::En681_I45)}, {"En681_I46", uint64_t(En681::En681_I46)}, {"En681_I47", uint64_t(En681::En681_I47)}, {"En681_I48", uint64_t(En681::En681_I48)}, {"En681_I49", uint64_t(En681::En681_I49)}, {"En681_I50", uint64_t(En681::En681_I50)}, {"En681_I51", uint64_t(En681::En681_I51)}, {"En681_I52", uint64_t(En681::En681_I52)}, {"En681_I53", uint64_t(En681::En681_I53)}, {"En681_I54", uint64_t(En681::En681_I54)}, {"En681_I55", uint64_t(En681::En681_I55)}, {"En681_I56", uint64_t(En681::En681_I56)}, {"En681_I57", uint64_t(En681::En681_I57)}, {"En681_I58", uint64_t(En681::En681_I58)}, {"En681_I59", uint64_t(En681::En681_I59)}, {"En681_I60", uint64_t(En681::En681_I60)}, {"En681_I61", uint64_t(En681::En681_I61)}, {"En681_I62", uint64_t(En681::En681_I62)}}; } };
template <> struct EnumOf<En682> { typedef En682_Cls C; static const char *name() { return "En682"; } static std::vector<EV> get() { return {{"En682_Only", uint64_t(En682::En682_Only)}}; } };
template <> struct EnumOf<En683> { typedef En683_Cls C; static const char *name() { return "En683"; } static std::vector<EV> get() { return {{"En683_Only", uint64_t(En683::En683_Only)}}; } };
template <> struct EnumOf<En684> { typedef En684_Cls C; static const char *name() { return "En684"; } static std::vector<EV> get() { return {{"En684_A", uint64_t(En684::En684_A)}, {"En684_B", uint64_t(En684::En684_B)}, {"En684_C", uint64_t(En684::En684_C)}, {"En684_D", uint64_t(En684::En684_D)}, {"En684_E", uint64_t(En684::En684_E)}, {"En684_F", uint64_t(En684::En684_F)}, {"En684_G", uint64_t(En684::En684_G)}, {"En684_H", uint64_t(En684::En684_H)}}; } };
template <> struct EnumOf<En685> { typedef En685_Cls C; static const char *name() { return "En685"; } static std::vector<EV> get() { return {{"En685_I0", uint64_t(En685::En685_I0)}, {"En685_I1", uint64_t(En685::En685_I1)}, {"En685_I2", uint64_t(En685::En685_I2)}, {"En685_I3", uint64_t(En685::En685_I3)}, {"En685_I4", uint64_t(En685::En685_I4)}, {"En685_I5", uint64_t(En685::En685_I5)}, {"En685_I6", uint64_t(En685::En685_I6)}, {"En685_I7", uint64_t(En685::En685_I7)}, {"En685_I8", uint64_t(En685::En685_I8)}, {"En685_I9", uint64_t(En685::En685_I9)}, {"En685_I10", uint64_t(En685::En685_I10)}, {"En685_I11", uint64_t(En685::En685_I11)}, {"En685_I12", uint64_t(En685::En685_I12)}, {"En685_I13", uint64_t(En685::En685_I13)}, {"En685_I14", uint64_t(En685::En685_I14)}, {"En685_I15", uint64_t(En685::En685_I15)}, {"En685_I16", uint64_t(En685::En685_I16)}, {"En685_I17", uint64_t(En685::En685_I17)}, {"En685_I18", uint64_t(En685::En685_I18)}, {"En685_I19", uint64_t(En685::En685_I19)}, {"En685_I20", uint64_t(En685::En685_I20)}, {"En685_I21", uint64_t(En685::En685_I21)}, {"En685_I22", uint64_t(En685::En685_I22)}, {"En685_I23", uint64_t(En685::En685_I23)}, {"En685_I24", uint64_t(En685::En685_I24)}, {"En685_I25", uint64_t(En685::En685_I25)}, {"En685_I26", uint64_t(En685::En685_I26)}, {"En685_I27", uint64_t(En685::En685_I27)}, {"En685_I28", uint64_t(En685::En685_I28)}, {"En685_I29", uint64_t(En685::En685_I29)}, {"En685_I30", uint64_t(En685::En685_I30)}, {"En685_I31", uint64_t(En685::En685_I31)}, {"En685_I32", uint64_t(En685::En685_I32)}, {"En685_I33", uint64_t(En685::En685_I33)}, {"En685_I34", uint64_t(En685::En685_I34)}, {"En685_I35", uint64_t(En685::En685_I35)}, {"En685_I36", uint64_t(En685::En685_I36)}, {"En685_I37", uint64_t(En685::En685_I37)}, {"En685_I38", uint64_t(En685::En685_I38)}, {"En685_I39", uint64_t(En685::En685_I39)}, {"En685_I40", uint64_t(En685::En685_I40)}, {"En685_I41", uint64_t(En685::En685_I41)}, {"En685_I42", uint64_t(En685::En685_I42)}, {"En685_I43", uint64_t(En685::En685_I43)}, {"En685_I44", uint64_t(En685::En685_I44)}, {"En685_I45", uint64_t(En685::En685_I45)}, {"En685_I46", uint64_t(En685::En685_I46)}, {"En685_I47", uint64_t(En685::En685_I47)}, {"En685_I48", uint64_t(En685::En685_I48)}, {"En685_I49", uint64_t(En685::En685_I49)}, {"En685_I50", uint64_t(En685::En685_I50)}, {"En685_I51", uint64_t(En685::En685_I51)}, {"En685_I52", uint64_t(En685::En685_I52)}, {"En685_I53", uint64_t(En685::En685_I53)}, {"En685_I54", uint64_t(En685::En685_I54)}, {"En685_I55", uint64_t(En685::En685_I55)}, {"En685_I56", uint64_t(En685::En685_I56)}, {"En685_I57", uint64_t(En685::En685_I57)}, {"En685_I58", uint64_t(En685::En685_I58)}, {"En685_I59", uint64_t(En685::En685_I59)}, {"En685_I60", uint64_t(En685::En685_I60)}, {"En685_I61", uint64_t(En685::En685_I61)}, {"En685_I62", uint64_t(En685::En685_I62)}}; } };
template <> struct EnumOf<En686> { typedef En686_Cls C; static const char *name() { return "En686"; } static std::vector<EV> get() { return {{"En686_Only", uint64_t(En686::En686_Only)}}; } };
template <> struct EnumOf<En687> { typedef En687_Cls C; static const char *name() { return "En687"; } static std::vector<EV> get() { return {{"En687_Only", uint64_t(En687::En687_Only)}}; } };
template <> struct EnumOf<En688> { typedef En688_Cls C; static const char *name() { return "En688"; } static std::vector<EV> get() { return {{"En688_A", uint64_t(En688::En688_A)}, {"En688_B", uint64_t(En688::En688_B)}, {"En688_C", uint64_t(En688::En688_C)}, {"En688_D", uint64_t(En688::En688_D)}, {"En688_E", uint64_t(En688::En688_E)}, {"En688_F", uint64_t(En688::En688_F)}, {"En688_G", uint64_t(En688::En688_G)}, {"En688_H", uint64_t(En688::En688_H)}}; } };
template <> struct EnumOf<En689> { typedef En689_Cls C; static const char *name() { return "En689"; } static std::vector<EV> get() { return {{"En689_I0", uint64_t(En689::En689_I0)}, {"En689_I1", uint64_t(En689::En689_I1)}, {"En689_I2", uint64_t(En689::En689_I2)}, {"En689_I3", uint64_t(En689::En689_I3)}, {"En689_I4", uint64_t(En689::En689_I4)}, {"En689_I5", uint64_t(En689::En689_I5)}, {"En689_I6", uint64_t(En689::En689_I6)}, {"En689_I7", uint64_t(En689::En689_I7)}, {"En689_I8", uint64_t(En689::En689_I8)}, {"En689_I9", uint64_t(En689::En689_I9)}, {"En689_I10", uint64_t(En689::En689_I10)}, {"En689_I11", uint64_t(En689::En689_I11)}, {"En689_I12", uint64_t(En689::En689_I12)}, {"En689_I13", uint64_t(En689::En689_I13)}, {"En689_I14", uint64_t(En689::En689_I14)}, {"En689_I15", uint64_t(En689::En689_I15)}, {"En689_I16", uint64_t(En689::En689_I16)}, {"En689_I17", uint64_t(En689::En689_I17)}, {"En689_I18", uint64_t(En689::En689_I18)}, {"En689_I19", uint64_t(En689::En689_I19)}, {"En689_I20", uint64_t(En689::En689_I20)}, {"En689_I21", uint64_t(En689::En689_I21)}, {"En689_I22", uint64_t(En689::En689_I22)}, {"En689_I23", uint64_t(En689::En689_I23)}, {"En689_I24", uint64_t(En689::En689_I24)}, {"En689_I25", uint64_t(En689::En689_I25)}, {"En689_I26", uint64_t(En689::En689_I26)}, {"En689_I27", uint64_t(En689::En689_I27)}, {"En689_I28", uint64_t(En689::En689_I28)}, {"En689_I29", uint64_t(En689::En689_I29)}, {"En689_I30", uint64_t(En689::En689_I30)}, {"En689_I31", uint64_t(En689::En689_I31)}, {"En689_I32", uint64_t(En689::En689_I32)}, {"En689_I33", uint64_t(En689::En689_I33)}, {"En689_I34", uint64_t(En689::En689_I34)}, {"En689_I35", uint64_t(En689::En689_I35)}, {"En689_I36", uint64_t(En689::En689_I36)}, {"En689_I37", uint64_t(En689::En689_I37)}, {"En689_I38", uint64_t(En689::En689_I38)}, {"En689_I39", uint64_t(En689::En689_I39)}, {"En689_I40", uint64_t(En689::En689_I40)}, {"En689_I41", uint64_t(En689::En689_I41)}, {"En689_I42", uint64_t(En689::En689_I42)}, {"En689_I43", uint64_t(En689::En689_I43)}, {"En689_I44", uint64_t(En689::En689_I44)}, {"En689_I45", uint64_t(En689::En689_I45)}, {"En689_I46", uint64_t(En689::En689_I46)}, {"En689_I47", uint64_t(En689::En689_I47)}, {"En689_I48", uint64_t(En689::En689_I48)}, {"En689_I49", uint64_t(En689::En689_I49)}, {"En689_I50", uint64_t(En689::En689_I50)}, {"En689_I51", uint64_t(En689::En689_I51)}, {"En689_I52", uint64_t(En689::En689_I52)}, {"En689_I53", uint64_t(En689::En689_I53)}, {"En689_I54", uint64_t(En689::En689_I54)}, {"En689_I55", uint64_t(En689::En689_I55)}, {"En689_I56", uint64_t(En689::En689_I56)}, {"En689_I57", uint64_t(En689::En689_I57)}, {"En689_I58", uint64_t(En689::En689_I58)}, {"En689_I59", uint64_t(En689::En689_I59)}, {"En689_I60", uint64_t(En689::En689_I60)}, {"En689_I61", uint64_t(En689::En689_I61)}, {"En689_I62", uint64_t(En689::En689_I62)}}; } };
template <> struct EnumOf<En690> { typedef En690_Cls C; static const char *name() { return "En690"; } static std::vector<EV> get() { return {{"En690_Only", uint64_t(En690::En690_Only)}}; } };
template <> struct EnumOf<En691> { typedef En691_Cls C; static const char *name() { return "En691"; } static std::vector<EV> get() { return {{"En691_Only", uint64_t(En691::En691_Only)}}; } };
template <> struct EnumOf<En692> { typedef En692_Cls C; static const char *name() { return "En692"; } static std::vector<EV> get() { return {{"En692_A", uint64_t(En692::En692_A)}, {"En692_B", uint64_t(En692::En692_B)}, {"En692_C", uint64_t(En692::En692_C)}, {"En692_D", uint64_t(En692::En692_D)}, {"En692_E", uint64_t(En692::En692_E)}, {"En692_F", uint64_t(En692::En692_F)}, {"En692_G", uint64_t(En692::En692_G)}, {"En692_H", uint64_t(En692::En692_H)}}; } };
template <> struct EnumOf<En693> { typedef En693_Cls C; static const char *name() { return "En693"; } static std::vector<EV> get() { return {{"En693_I0", uint64_t(En693::En693_I0)}, {"En693_I1", uint64_t(En693::En693_I1)}, {"En693_I2", uint64_t(En693::En693_I2)}, {"En693_I3", uint64_t(En693::En693_I3)}, {"En693_I4", uint64_t(En693::En693_I4)}, {"En693_I5", uint64_t(En693::En693_I5)}, {"En693_I6", uint64_t(En693::En693_I6)}, {"En693_I7", uint64_t(En693::En693_I7)}, {"En693_I8", uint64_t(En693::En693_I8)}, {"En693_I9", uint64_t(En693::En693_I9)}, {"En693_I10", uint64_t(En693::En693_I10)}, {"En693_I11", uint64_t(En693::En693_I11)}, {"En693_I12", uint64_t(En693::En693_I12)}, {"En693_I13", uint64_t(En693::En693_I13)}, {"En693_I14", uint64_t(En693::En693_I14)}, {"En693_I15", uint64_t(En693::En693_I15)}, {"En693_I16", uint64_t(En693::En693_I16)}, {"En693_I17", uint64_t(En693::En693_I17)}, {"En693_I18", uint64_t(En693::En693_I18)}, {"En693_I19", uint64_t(En693::En693_I19)}, {"En693_I20", uint64_t(En693::En693_I20)}, {"En693_I21", uint64_t(En693::En693_I21)}, {"En693_I22", uint64_t(En693::En693_I22)}, {"En693_I23", uint64_t(En693::En693_I23)}, {"En693_I24", uint64_t(En693::En693_I24)}, {"En693_I25", uint64_t(En693::En693_I25)}, {"En693_I26", uint64_t(En693::En693_I26)}, {"En693_I27", uint64_t(En693::En693_I27)}, {"En693_I28", uint64_t(En693::En693_I28)}, {"En693_I29", uint64_t(En693::En693_I29)}, {"En693_I30", uint64_t(En693::En693_I30)}, {"En693_I31", uint64_t(En693::En693_I31)}, {"En693_I32", uint64_t(En693::En693_I32)}, {"En693_I33", uint64_t(En693::En693_I33)}, {"En693_I34", uint64_t(En693::En693_I34)}, {"En693_I35", uint64_t(En693::En693_I35)}, {"En693_I36", uint64_t(En693::En693_I36)}, {"En693_I37", uint64_t(En693::En693_I37)}, {"En693_I38", uint64_t(En693::En693_I38)}, {"En693_I39", uint64_t(En693::En693_I39)}, {"En693_I40", uint64_t(En693::En693_I40)}, {"En693_I41", uint64_t(En693::En693_I41)}, {"En693_I42", uint64_t(En693::En693_I42)}, {"En693_I43", uint64_t(En693::En693_I43)}, {"En693_I44", uint64_t(En693::En693_I44)}, {"En693_I45", uint64_t(En693::En693_I45)}, {"En693_I46", uint64_t(En693::En693_I46)}, {"En693_I47", uint64_t(En693::En693_I47)}, {"En693_I48", uint64_t(En693::En693_I48)}, {"En693_I49", uint64_t(En693::En693_I49)}, {"En693_I50", uint64_t(En693::En693_I50)}, {"En693_I51", uint64_t(En693::En693_I51)}, {"En693_I52", uint64_t(En693::En693_I52)}, {"En693_I53", uint64_t(En693::En693_I53)}, {"En693_I54", uint64_t(En693::En693_I54)}, {"En693_I55", uint64_t(En693::En693_I55)}, {"En693_I56", uint64_t(En693::En693_I56)}, {"En693_I57", uint64_t(En693::En693_I57)}, {"En693_I58", uint64_t(En693::En693_I58)}, {"En693_I59", uint64_t(En693::En693_I59)}, {"En693_I60", uint64_t(En693::En693_I60)}, {"En693_I61", uint64_t(En693::En693_I61)}, {"En693_I62", uint64_t(En693::En693_I62)}}; } };
template <> struct EnumOf<En694> { typedef En694_Cls C; static const char *name() { return "En694"; } static std::vector<EV> get() { return {{"En694_Only", uint64_t(En694::En694_Only)}}; } };
template <> struct EnumOf<En695> { typedef En695_Cls C; static const char *name() { return "En695"; } static std::vector<EV> get() { return {{"En695_Only", uint64_t(En695::En695_Only)}}; } };
template <> struct EnumOf<En696> { typedef En696_Cls C; static const char *name() { return "En696"; } static std::vector<EV> get() { return {{"En696_A", uint64_t(En696::En696_A)}, {"En696_B", uint64_t(En696::En696_B)}, {"En696_C", uint64_t(En696::En696_C)}, {"En696_D", uint64_t(En696::En696_D)}, {"En696_E", uint64_t(En696::En696_E)}, {"En696_F", uint64_t(En696::En696_F)}, {"En696_G", uint64_t(En696::En696_G)}, {"En696_H", uint64_t(En696::En696_H)}}; } };
template <> struct EnumOf<En697> { typedef En697_Cls C; static const char *name() { return "En697"; } static std::vector<EV> get() { return {{"En697_I0", uint64_t(En697::En697_I0)}, {"En697_I1", uint64_t(En697::En697_I1)}, {"En697_I2", uint64_t(En697::En697_I2)}, {"En697_I3", uint64_t(En697::En697_I3)}, {"En697_I4", uint64_t(En697::En697_I4)}, {"En697_I5", uint64_t(En697::En697_I5)}, {"En697_I6", uint64_t(En697::En697_I6)}, {"En697_I7", uint64_t(En697::En697_I7)}, {"En697_I8", uint64_t(En697::En697_I8)}, {"En697_I9", uint64_t(En697::En697_I9)}, {"En697_I10", uint64_t(En697::En697_I10)}, {"En697_I11", uint64_t(En697::En697_I11)}, {"En697_I12", uint64_t(En697::En697_I12)}, {"En697_I13", uint64_t(En697::En697_I13)}, {"En697_I14", uint64_t(En697::En697_I14)}, {"En697_I15", uint64_t(En697::En697_I15)}, {"En697_I16", uint64_t(En697::En697_I16)}, {"En697_I17", uint64_t(En697::En697_I17)}, {"En697_I18", uint64_t(En697::En697_I18)}, {"En697_I19", uint64_t(En697::En697_I19)}, {"En697_I20", uint64_t(En697::En697_I20)}, {"En697_I21", uint64_t(En697::En697_I21)}, {"En697_I22", uint64_t(En697::En697_I22)}, {"En697_I23", uint64_t(En697::En697_I23)}, {"En697_I24", uint64_t(En697::En697_I24)}, {"En697_I25", uint64_t(En697::En697_I25)}, {"En697_I26", uint64_t(En697::En697_I26)}, {"En697_I27", uint64_t(En697::En697_I27)}, {"En697_I28", uint64_t(En697::En697_I28)}, {"En697_I29", uint64_t(En697::En697_I29)}, {"En697_I30", uint64_t(En697::En697_I30)}, {"En697_I31", uint64_t(En697::En697_I31)}, {"En697_I32", uint64_t(En697::En697_I32)}, {"En697_I33", uint64_t(En697::En697_I33)}, {"En697_I34", uint64_t(En697::En697_I34)}, {"En697_I35", uint64_t(En697::En697_I35)}, {"En697_I36", uint64_t(En697::En697_I36)}, {"En697_I37", uint64_t(En697::En697_I37)}, {"En697_I38", uint64_t(En697::En697_I38)}, {"En697_I39", uint64_t(En697::En697_I39)}, {"En697_I40", uint64_t(En697::En697_I40)}, {"En697_I41", uint64_t(En697::En697_I41)}, {"En697_I42", uint64_t(En697::En697_I42)}, {"En697_I43", uint64_t(En697::En697_I43)}, {"En697_I44", uint64_t(En697::En697_I44)}, {"En697_I45", uint64_t(En697::En697_I45)}, {"En697_I46", uint64_t(En697::En697_I46)}, {"En697_I47", uint64_t(En697::En697_I47)}, {"En697_I48", uint64_t(En697::En697_I48)}, {"En697_I49", uint64_t(En697::En697_I49)}, {"En697_I50", uint64_t(En697::En697_I50)}, {"En697_I51", uint64_t(En697::En697_I51)}, {"En697_I52", uint64_t(En697::En697_I52)}, {"En697_I53", uint64_t(En697::En697_I53)}, {"En697_I54", uint64_t(En697::En697_I54)}, {"En697_I55", uint64_t(En697::En697_I55)}, {"En697_I56", uint64_t(En697::En697_I56)}, {"En697_I57", uint64_t(En697::En697_I57)}, {"En697_I58", uint64_t(En697::En697_I58)}, {"En697_I59", uint64_t(En697::En697_I59)}, {"En697_I60", uint64_t(En697::En697_I60)}, {"En697_I61", uint64_t(En697::En697_I61)}, {"En697_I62", uint64_t(En697::En697_I62)}}; } };
template <> struct EnumOf<En698> { typedef En698_Cls C; static const char *name() { return "En698"; } static std::vector<EV> get() { return {{"En698_Only", uint64_t(En698::En698_Only)}}; } };
template <> struct EnumOf<En699> { typedef En699_Cls C; static const char *name() { return "En699"; } static std::vector<EV> get() { return {{"En699_Only", uint64_t(En699::En699_Only)}}; } };
template <> struct EnumOf<En700> { typedef En700_Cls C; static const char *name() { return "En700"; } static std::vector<EV> get() { return {{"En700_A", uint64_t(En700::En700_A)}, {"En700_B", uint64_t(En700::En700_B)}, {"En700_C", uint64_t(En700::En700_C)}, {"En700_D", uint64_t(En700::En700_D)}, {"En700_E", uint64_t(En700::En700_E)}, {"En700_F", uint64_t(En700::En700_F)}, {"En700_G", uint64_t(En700::En700_G)}, {"En700_H", uint64_t(En700::En700_H)}}; } };
template <> struct EnumOf<En701> { typedef En701_Cls C; static const char *name() { return "En701"; } static std::vector<EV> get() { return {{"En701_I0", uint64_t(En701::En701_I0)}, {"En701_I1", uint64_t(En701::En701_I1)}, {"En701_I2", uint64_t(En701::En701_I2)}, {"En701_I3", uint64_t(En701::En701_I3)}, {"En701_I4", uint64_t(En701::En701_I4)}, {"En701_I5", uint64_t(En701::En701_I5)}, {"En701_I6", uint64_t(En701::En701_I6)}, {"En701_I7", uint64_t(En701::En701_I7)}, {"En701_I8", uint64_t(En701::En701_I8)}, {"En701_I9", uint64_t(En701::En701_I9)}, {"En701_I10", uint64_t(En701::En701_I10)}, {"En701_I11", uint64_t(En701::En701_I11)}, {"En701_I12", uint64_t(En701::En701_I12)}, {"En701_I13", uint64_t(En701::En701_I13)}, {"En701_I14", uint64_t(En701::En701_I14)}, {"En701_I15", uint64_t(En701::En701_I15)}, {"En701_I16", uint64_t(En701::En701_I16)}, {"En701_I17", uint64_t(En701::En701_I17)}, {"En701_I18", uint64_t(En701::En701_I18)}, {"En701_I19", uint64_t(En701::En701_I19)}, {"En701_I20", uint64_t(En701::En701_I20)}, {"En701_I21", uint64_t(En701::En701_I21)}, {"En701_I22", uint64_t(En701::En701_I22)}, {"En701_I23", uint64_t(En701::En701_I23)}, {"En701_I24", uint64_t(En701::En701_I24)}, {"En701_I25", uint64_t(En701::En701_I25)}, {"En701_I26", uint64_t(En701::En701_I26)}, {"En701_I27", uint64_t(En701::En701_I27)}, {"En701_I28", uint64_t(En701::En701_I28)}, {"En701_I29", uint64_t(En701::En701_I29)}, {"En701_I30", uint64_t(En701::En701_I30)}, {"En701_I31", uint64_t(En701::En701_I31)}, {"En701_I32", uint64_t(En701::En701_I32)}, {"En701_I33", uint64_t(En701::En701_I33)}, {"En701_I34", uint64_t(En701::En701_I34)}, {"En701_I35", uint64_t(En701::En701_I35)}, {"En701_I36", uint64_t(En701::En701_I36)}, {"En701_I37", uint64_t(En701::En701_I37)}, {"En701_I38", uint64_t(En701::En701_I38)}, {"En701_I39", uint64_t(En701::En701_I39)}, {"En701_I40", uint64_t(En701::En701_I40)}, {"En701_I41", uint64_t(En701::En701_I41)}, {"En701_I42", uint64_t(En701::En701_I42)}, {"En701_I43", uint64_t(En701::En701_I43)}, {"En701_I44", uint64_t(En701::En701_I44)}, {"En701_I45", uint64_t(En701::En701_I45)}, {"En701_I46", uint64_t(En701::En701_I46)}, {"En701_I47", uint64_t(En701::En701_I47)}, {"En701_I48", uint64_t(En701::En701_I48)}, {"En701_I49", uint64_t(En701::En701_I49)}, {"En701_I50", uint64_t(En701::En701_I50)}, {"En701_I51", uint64_t(En701::En701_I51)}, {"En701_I52", uint64_t(En701::En701_I52)}, {"En701_I53", uint64_t(En701::En701_I53)}, {"En701_I54", uint64_t(En701::En701_I54)}, {"En701_I55", uint64_t(En701::En701_I55)}, {"En701_I56", uint64_t(En701::En701_I56)}, {"En701_I57", uint64_t(En701::En701_I57)}, {"En701_I58", uint64_t(En701::En701_I58)}, {"En701_I59", uint64_t(En701::En701_I59)}, {"En701_I60", uint64_t(En701::En701_I60)}, {"En701_I61", uint64_t(En701::En701_I61)}, {"En701_I62", uint64_t(En701::En701_I62)}}; } };
template <> struct EnumOf<En702> { typedef En702_Cls C; static const char *name() { return "En702"; } static std::vector<EV> get() { return {{"En702_Only", uint64_t(En702::En702_Only)}}; } };
template <> struct EnumOf<En703> { typedef En703_Cls C; static const char *name() { return "En703"; } static std::vector<EV> get() { return {{"En703_Only", uint64_t(En703::En703_Only)}}; } };
