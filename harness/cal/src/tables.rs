//! Weekday closures that follow no recurring rule (lunar, Islamic, Hebrew and ad hoc holidays), per
//! year as "MMDD". Recorded once from the repaired code after a cross-check of the lunisolar,
//! Islamic and Hebrew dates against independent computations; see DESIGN.md.

pub type T = &'static [(i32, &'static str)];

pub const MATARIKI: T = &[
    (2022, "0624"),
    (2023, "0714"),
    (2024, "0628"),
    (2025, "0620"),
    (2026, "0710"),
    (2027, "0625"),
    (2028, "0714"),
    (2029, "0706"),
    (2030, "0621"),
    (2031, "0711"),
    (2032, "0702"),
    (2033, "0624"),
    (2034, "0707"),
    (2035, "0629"),
    (2036, "0718"),
    (2037, "0710"),
    (2038, "0625"),
    (2039, "0715"),
    (2040, "0706"),
    (2041, "0719"),
    (2042, "0711"),
    (2043, "0703"),
    (2044, "0624"),
    (2045, "0707"),
    (2046, "0629"),
    (2047, "0719"),
    (2048, "0703"),
    (2049, "0625"),
    (2050, "0715"),
    (2051, "0630"),
    (2052, "0621"),
];

pub const ISRAEL: T = &[
    (2013, "0224 0325 0326 0331 0401 0415 0416 0514 0515 0716 0904 0905 0918 0919 0925 0926"),
    (2014, "0316 0414 0415 0420 0421 0505 0506 0603 0604 0805 0924 0925 1008 1009 1015 1016"),
    (2015, "0305 0409 0422 0423 0524 0726 0913 0914 0915 0922 0923 0927 0928 1004 1005"),
    (2016, "0324 0428 0511 0512 0612 0814 1002 1003 1004 1011 1012 1016 1017 1023 1024"),
    (2017, "0312 0410 0411 0416 0417 0501 0502 0530 0531 0801 0920 0921 1004 1005 1011 1012"),
    (2018, "0301 0405 0418 0419 0520 0722 0909 0910 0911 0918 0919 0923 0924 0930 1001"),
    (2019, "0321 0425 0508 0509 0609 0811 0929 0930 1001 1008 1009 1013 1014 1020 1021"),
    (2020, "0310 0408 0409 0414 0415 0428 0429 0528 0730 0920 0927 0928"),
    (2021, "0328 0414 0415 0517 0718 0907 0908 0915 0916 0920 0921 0927 0928"),
    (2022, "0317 0504 0505 0605 0807 0926 0927 1004 1005 1009 1010 1016 1017"),
    (2023, "0307 0406 0412 0425 0426 0727 0917 0924 0925"),
    (2024, "0324 0423 0429 0513 0514 0612 0813 1003 1016 1017 1023 1024"),
    (2025, "0413 0430 0501 0602 0803 0923 0924 1001 1002 1006 1007 1013 1014"),
    (2026, "0303 0402 0408 0421 0422 0723 0913 0920 0921"),
    (2027, "0323 0422 0428 0511 0512 0812 1003 1010 1011"),
    (2028, "0312 0411 0417 0501 0502 0531 0801 0921 1004 1005 1011 1012"),
    (2029, "0301 0418 0419 0520 0722 0910 0911 0918 0919 0923 0924 0930 1001"),
    (2030, "0319 0418 0424 0507 0508 0808 0929 1006 1007"),
    (2031, "0309 0408 0414 0428 0429 0528 0729 0918 1001 1002 1008 1009"),
    (2032, "0226 0414 0415 0516 0718 0906 0907 0914 0915 0919 0920 0926 0927"),
    (2033, "0315 0414 0420 0503 0504 0804 0925 1002 1003"),
    (2034, "0305 0404 0410 0424 0425 0524 0725 0914 0927 0928 1004 1005"),
    (2035, "0325 0424 0430 0514 0515 0613 0814 1004 1017 1018 1024 1025"),
    (2036, "0313 0430 0501 0601 0803 0922 0923 0930 1001 1005 1006 1012 1013"),
    (2037, "0301 0331 0406 0420 0421 0520 0721 0910 0923 0924 0930 1001"),
    (2038, "0321 0420 0426 0510 0511 0609 0810 0930 1013 1014 1020 1021"),
    (2039, "0310 0427 0428 0529 0731 0919 0920 0927 0928 1002 1003 1009 1010"),
    (2040, "0228 0329 0404 0417 0418 0719 0909 0916 0917"),
    (2041, "0317 0416 0422 0506 0507 0605 0806 0926 1009 1010 1016 1017"),
    (2042, "0306 0423 0424 0525 0727 0915 0916 0923 0924 0928 0929 1005 1006"),
    (2043, "0326 0513 0514 0614 0816 1005 1006 1013 1014 1018 1019 1025 1026"),
    (2044, "0313 0412 0418 0502 0503 0601 0802 0922 1005 1006 1012 1013"),
];

pub const TURKEY: T = &[
    (2004, "0202 0203 0204 1115 1116"),
    (2005, "0119 0120 0121 1102 1103 1104"),
    (2006, "0110 0111 0112 0113 1023 1024 1025"),
    (2007, "0102 0103 1012 1220 1221"),
    (2008, "0930 1001 1002 1208 1209 1210 1211"),
    (2009, "0921 0922 1127 1130"),
    (2010, "0909 0910 1116 1117 1118 1119"),
    (2011, "0831 0901 1107 1108 1109"),
    (2012, "0820 0821 1024 1025 1026"),
    (2013, "0807 0808 0809 1014 1015 1016 1017 1018 1028"),
    (2014, "0728 0729 0730 1006 1007"),
    (2015, "0717 0924 0925"),
    (2016, "0705 0706 0707 0912 0913 0914 0915"),
    (2017, "0626 0627 0901 0904"),
    (2018, "0615 0821 0822 0823 0824"),
    (2019, "0604 0605 0606 0812 0813 0814"),
    (2020, "0525 0526 0731 0803"),
    (2021, "0513 0514 0720 0721 0722 0723"),
    (2022, "0502 0503 0504 0711 0712"),
    (2023, "0421 0628 0629 0630"),
    (2024, "0410 0411 0412 0617 0618 0619"),
    (2025, "0331 0401 0402 0606 0609"),
    (2026, "0320 0526 0527 0528 0529"),
    (2027, "0310 0311 0312 0517 0518"),
    (2028, "0228 0229 0504 0505"),
    (2029, "0215 0216 0424 0425 0426"),
    (2030, "0205 0206 0207 0415 0416"),
    (2031, "0127 0402 0403 0404"),
    (2032, "0114 0115 0116 0322 0323 0324"),
    (2033, "0103 0104 0105 0311 0314 1223"),
    (2034, "0228 0301 0302 0303 1212 1213 1214"),
];

pub const CHINA: T = &[
    (2004, "0119 0120 0121 0122 0123 0126 0127 0128"),
    (2005, "0103 0207 0208 0209 0210 0211 0214 0215"),
    (2006, "0102 0103 0126 0127 0130 0131 0201 0202 0203"),
    (2007, "0102 0103 0219 0220 0221 0222 0223 1231"),
    (2008, "0206 0207 0208 0211 0212 0501 0502 0929 0930 1001 1002 1003"),
    (2009, "0102 0126 0127 0128 0129 0130 0406 0501 0528 0529 1001 1002 1005 1006 1007 1008"),
    (2010, "0215 0216 0217 0218 0219 0405 0503 0614 0615 0616 0922 0923 0924 1001 1004 1005 1006 1007"),
    (2011, "0103 0202 0203 0204 0207 0208 0404 0405 0502 0606 0912 1003 1004 1005 1006 1007"),
    (2012, "0102 0103 0123 0124 0125 0126 0127 0402 0403 0404 0430 0501 0622 1001 1002 1003 1004 1005"),
    (2013, "0102 0103 0211 0212 0213 0214 0215 0404 0405 0429 0430 0501 0610 0611 0612 0919 0920 1001 1002 1003 1004 1007"),
    (2014, "0131 0203 0204 0205 0206 0407 0501 0502 0602 0908 1001 1002 1003 1006 1007"),
    (2015, "0102 0218 0219 0220 0223 0224 0406 0501 0622 0903 0904 1001 1002 1005 1006 1007"),
    (2016, "0208 0209 0210 0211 0212 0404 0502 0609 0610 0915 0916 1003 1004 1005 1006 1007"),
    (2017, "0102 0127 0130 0131 0201 0202 0403 0404 0501 0529 0530 1002 1003 1004 1005 1006"),
    (2018, "0215 0216 0219 0220 0221 0405 0406 0430 0501 0618 0924 1001 1002 1003 1004 1005 1231"),
    (2019, "0204 0205 0206 0207 0208 0405 0501 0502 0503 0607 0913 1001 1002 1003 1004 1007"),
    (2020, "0124 0127 0128 0129 0130 0131 0406 0501 0504 0505 0625 0626 1001 1002 1005 1006 1007 1008"),
    (2021, "0211 0212 0215 0216 0217 0405 0503 0504 0505 0614 0920 0921 1001 1004 1005 1006 1007"),
    (2022, "0103 0131 0201 0202 0203 0204 0404 0405 0502 0503 0504 0603 0912 1003 1004 1005 1006 1007"),
    (2023, "0102 0123 0124 0125 0126 0127 0405 0501 0502 0503 0622 0623 0929 1002 1003 1004 1005 1006"),
];

pub const HONGKONG: T = &[
    (2004, "0122 0123 0405 0526 0622 0929 1022"),
    (2005, "0209 0210 0211 0405 0516 0919 1011"),
    (2006, "0130 0131 0405 0505 0531 1030"),
    (2007, "0219 0220 0405 0524 0619 0926 1019"),
    (2008, "0207 0208 0404 0512 0609 0915 1007"),
    (2009, "0126 0127 0128 0528 1026"),
    (2010, "0215 0216 0406 0521 0616 0923"),
    (2011, "0203 0204 0405 0510 0606 0913 1005 1227"),
    (2012, "0123 0124 0125 0404 0510 1023"),
    (2013, "0211 0212 0213 0404 0517 0612 0920 1014"),
    (2014, "0131 0203 0506 0602 0909 1002"),
    (2015, "0219 0220 0407 0525 0903 0928 1021"),
    (2016, "0208 0209 0210 0404 0609 0916 1010 1227"),
    (2017, "0130 0131 0404 0503 0530 1005"),
    (2018, "0216 0219 0405 0522 0618 0925 1017"),
    (2019, "0205 0206 0207 0405 0607 1007"),
    (2020, "0127 0128 0430 0625 1002 1026"),
    (2021, "0212 0215 0519 0614 0922 1014"),
    (2022, "0201 0202 0203 0405 0509 0603 0912 1004"),
    (2023, "0123 0124 0125 0405 0526 0622 1023"),
    (2024, "0212 0213 0404 0515 0610 0918 1011"),
];

pub const TAIWAN: T = &[
    (2002, "0211 0212 0213 0214 0215"),
    (2003, "0131 0203 0204 0205 0604 0911"),
    (2004, "0121 0122 0123 0126 0622 0928"),
    (2005, "0207 0208 0209 0210 0211 0502"),
    (2006, "0130 0131 0201 0202 0203 0531 1006"),
    (2007, "0219 0220 0221 0222 0223 0406 0618 0619 0924 0925"),
    (2008, "0204 0205 0206 0207 0208 0211 0404"),
    (2009, "0102 0126 0127 0128 0129 0130 0528 0529"),
    (2010, "0215 0216 0217 0218 0219 0616 0922"),
    (2011, "0202 0203 0204 0207 0404 0502 0606 0912"),
    (2012, "0123 0124 0125 0126 0127 0227 0404 1231"),
    (2013, "0211 0212 0213 0214 0215 0404 0612 0919 0920"),
    (2014, "0128 0129 0130 0131 0203 0204 0404 0602 0908"),
    (2015, "0102 0218 0219 0220 0223 0227 0403 0406 0619 0928 1009"),
    (2016, "0208 0209 0210 0211 0212 0229 0404 0502 0609 0610 0915 0916"),
    (2017, "0102 0127 0130 0131 0201 0227 0403 0404 0529 0530 1004 1009"),
    (2018, "0215 0216 0219 0220 0404 0406 0618 0924 1231"),
    (2019, "0204 0205 0206 0207 0208 0301 0404 0607 0913 1011"),
    (2020, "0123 0124 0127 0128 0129 0402 0403 0625 0626 1001 1002 1009"),
    (2021, "0210 0211 0212 0215 0216 0301 0402 0430 0614 0920 0921 1011 1231"),
    (2022, "0131 0201 0202 0203 0204 0404 0502 0603 0909"),
    (2023, "0102 0120 0123 0124 0125 0126 0127 0227 0403 0404 0622 0623 0929 1009"),
    (2024, "0208 0209 0212 0213 0214 0404 0610 0917"),
];

pub const SOUTHKOREA: T = &[
    (2004, "0121 0122 0123 0415 0526 0927 0928 0929"),
    (2005, "0208 0209 0210 0919"),
    (2006, "0130 0531 1005 1006"),
    (2007, "0219 0524 0924 0925 0926 1219"),
    (2008, "0206 0207 0208 0409 0512 0915"),
    (2009, "0126 0127 1002"),
    (2010, "0215 0521 0602 0921 0922 0923"),
    (2011, "0202 0203 0204 0510 0912 0913"),
    (2012, "0123 0124 0411 0528 1001 1219"),
    (2013, "0211 0517 0918 0919 0920"),
    (2014, "0130 0131 0506 0604 0908 0909 0910"),
    (2015, "0218 0219 0220 0525 0814 0928 0929"),
    (2016, "0208 0209 0210 0413 0914 0915 0916"),
    (2017, "0127 0130 0503 0509 1004 1005 1006"),
    (2018, "0215 0216 0522 0613 0924 0925 0926"),
    (2019, "0204 0205 0206 0912 0913"),
    (2020, "0124 0127 0415 0430 0817 0930 1001 1002"),
    (2021, "0211 0212 0519 0920 0921 0922"),
    (2022, "0131 0201 0202 0309 0601 0909 0912"),
    (2023, "0123 0124 0529 0928 0929 1002"),
    (2024, "0209 0212 0410 0515 0916 0917 0918"),
    (2025, "0128 0129 0130 0506 1006 1007 1008"),
    (2026, "0216 0217 0218 0525 0924 0925"),
    (2027, "0208 0209 0513 0914 0915 0916"),
    (2028, "0126 0127 0128 0502 1002 1004 1005"),
    (2029, "0212 0213 0214 0521 0921 0924"),
    (2030, "0204 0205 0509 0911 0912 0913"),
    (2031, "0122 0123 0124 0528 0930 1001 1002"),
    (2032, "0210 0211 0212 0517 0920 0921"),
    (2033, "0131 0201 0202 0506 0907 0908 0909"),
    (2034, "0220 0221 0525 0926 0927 0928"),
    (2035, "0207 0208 0209 0515 0917 0918"),
    (2036, "0128 0129 0130 0506 1006 1007"),
    (2037, "0216 0217 0522 0923 0924 0925"),
    (2038, "0203 0204 0205 0511 0913 0914 0915"),
    (2039, "0124 0125 0126 0502 1004 1005"),
    (2040, "0213 0214 0518 0920 0921"),
    (2041, "0131 0201 0507 0909 0910 0911"),
    (2042, "0121 0122 0123 0526 0929 0930"),
    (2043, "0209 0210 0211 0518 0916 0917 0918"),
    (2044, "0129 0201 0506 1004 1005 1006"),
    (2045, "0216 0217 0524 0925 0926 0927"),
    (2046, "0205 0206 0207 0514 0914 0917"),
    (2047, "0125 0128 0502 1004 1007"),
    (2048, "0213 0214 0520 0921 0922 0923"),
    (2049, "0201 0202 0203 0510 0910 0913"),
    (2050, "0124 0125 0530 0929 0930"),
];

pub const INDIA: T = &[
    (2005, "0121 0907 1012 1101 1103 1115"),
    (2006, "0111 0209 0315 0406 0411 1024 1025"),
    (2007, "0101 0130 0216 0327 0502 1109 1221"),
    (2008, "0306 0320 0418 0519 0903 1009 1028 1030 1113 1209"),
    (2009, "0108 0223 0310 0311 0403 0407 0921 0928 1019 1102 1228"),
    (2010, "0101 0212 0301 0324 0910 1105 1117 1217"),
    (2011, "0302 0412 0831 0901 1006 1026 1027 1107 1110 1206"),
    (2012, "0220 0308 0405 0820 0919 1024 1114 1128"),
    (2013, "0327 0419 0424 0809 0909 1016 1104 1114"),
    (2014, "0227 0317 0408 0729 0829 1003 1006 1024 1104 1106"),
    (2019, "0219 0304 0321 0401 0417 0429 0605 0812 0902 0910 1008 1021 1028 1112"),
    (2020, "0219 0221 0310 0325 0401 0402 0406 0507 0525 1030 1116 1130"),
    (2021, "0219 0311 0329 0413 0421 0526 0721 0910 1015 1019 1105 1119"),
    (2022, "0301 0318 0503 0516 0831 1005 1026 1108"),
    (2023, "0308 0322 0330 0404 0505 0628 0919 0928 1024 1114 1127"),
    (2024, "0219 0308 0325 0409 0417 0523 0617 0916 1115"),
    (2025, "0219 0226 0314 0331 0410 0512 0827 0905 1022 1105"),
];

pub const INDONESIA: T = &[
    (2005, "0121 0209 0210 0311 0422 0524 0902 1102 1103 1104 1107 1108 1226"),
    (2006, "0110 0131 0330 0410 0821 1023 1024 1025 1026 1027"),
    (2007, "0319 0518 0601 1012 1015 1016 1024 1220"),
    (2008, "0110 0111 0207 0208 0307 0320 0520 0730 0818 0930 1001 1002 1003 1208 1229 1231"),
    (2009, "0102 0126 0309 0326 0409 0720 0918 0921 0922 0923 1127 1218 1224 1231"),
    (2010, "0226 0316 0528 0908 0909 0910 0913 0914 1117 1207 1224 1231"),
    (2011, "0203 0215 0517 0629 0829 0830 0831 0901 0902 1226"),
    (2012, "0123 0323 0820 0821 0822 1026 1115 1116 1224 1231"),
    (2013, "0124 0312 0606 0805 0806 0807 0808 0809 1014 1015 1105 1226 1231"),
    (2014, "0114 0131 0331 0501 0515 0527 0728 0729 0730 0731 0801 1226 1231"),
];

pub const SINGAPORE: T = &[
    (2004, "0122 0123 0202 0602 1111 1115"),
    (2005, "0121 0209 0210 1101 1103"),
    (2006, "0110 0130 0131 0512 1024"),
    (2007, "0102 0219 0220 0531 1108 1220"),
    (2008, "0207 0208 1001 1028 1208"),
    (2009, "0126 0127 0921 1116 1127"),
    (2010, "0215 0216 0528 0910 1105 1117"),
    (2012, "0123 0124 0820 1026 1113"),
    (2013, "0211 0212 0524 0808 1015"),
    (2014, "0131 0513 0728 1006 1023"),
    (2019, "0205 0206 0520 0605 0812 1028"),
    (2020, "0127 0507 0525 0731"),
    (2021, "0212 0513 0526 0720 1104"),
    (2022, "0201 0202 0502 0503 0516 0711 1024 1226"),
    (2023, "0123 0124 0602 0629 1113"),
];

pub const THAILAND: T = &[
    (2000, "0221 0505 0517 0717 1023"),
    (2001, "0208 0507 0508 0706 1023"),
    (2005, "0223 0505 0523 0701 0722 1024"),
    (2006, "0213 0419 0505 0512 0612 0613 0711 1023"),
    (2007, "0305 0507 0531 0730 1023 1224"),
    (2008, "0221 0505 0519 0701 0717 1023"),
    (2009, "0102 0209 0505 0508 0701 0706 0707 1023"),
    (2010, "0301 0505 0520 0521 0528 0701 0726 0813 1025"),
    (2011, "0218 0505 0516 0517 0701 0715 1024"),
    (2012, "0103 0307 0409 0507 0604 0802 1023"),
    (2013, "0225 0506 0524 0701 0722 1023 1230"),
    (2014, "0214 0505 0513 0701 0711 0811 1023"),
    (2015, "0102 0304 0504 0505 0601 0701 0730 1023"),
    (2016, "0222 0505 0506 0520 0701 0718 0719 1024"),
    (2017, "0213 0510 0710 1023 1026"),
    (2018, "0301 0529 0727 1023"),
];
