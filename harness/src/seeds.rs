//! Small valid documents of every format.
use crate::Rng;

pub const OEM: &str = "CCSDS_OEM_VERS = 2.0\nCREATION_DATE = 2020-01-01T00:00:00\nORIGINATOR = X\nMETA_START\nOBJECT_NAME = ISS\nOBJECT_ID = 1998-067-A\nCENTER_NAME = EARTH\nREF_FRAME = EME2000\nTIME_SYSTEM = UTC\nSTART_TIME = 2020-01-01T00:00:00.000\nSTOP_TIME = 2020-01-01T00:01:00.000\nMETA_STOP\nCOMMENT c\n2020-01-01T00:00:00.000 7000.0 0.1 -2.5 0.0 7.5 0.001\n2020-01-01T00:01:00.123456789 6999.0 450.0 -2.0 -0.5 7.4 0.0\n";
pub const OPM: &str = "CCSDS_OPM_VERS = 2.0\nCREATION_DATE = 2020-01-01T00:00:00\nORIGINATOR = X\nOBJECT_NAME = ISS\nOBJECT_ID = 1998-067-A\nCENTER_NAME = EARTH\nREF_FRAME = EME2000\nTIME_SYSTEM = UTC\nEPOCH = 2020-01-01T00:00:00.000\nX = 7000.0\nY = 0.1\nZ = -2.5\nX_DOT = 0.0\nY_DOT = 7.5\nZ_DOT = 0.001\nMASS = 400000.0\nSOLAR_RAD_AREA = 10\nDRAG_COEFF = 2.2\n";
pub const TDM: &str = "CCSDS_TDM_VERS = 1.0\nCREATION_DATE = 2020-01-01T00:00:00\nORIGINATOR = X\nMETA_START\nTIME_SYSTEM = UTC\nPARTICIPANT_1 = A\nPARTICIPANT_2 = B\nMODE = SEQUENTIAL\nPATH = 1,2,1\nMETA_STOP\nDATA_START\nRANGE = 2020-01-01T00:00:00.000 : 1234.5\nDOPPLER_INSTANTANEOUS = 2020-01-01T00:00:01.000 : -0.5\nDATA_STOP\n";
pub const SP3: &str = "#dP2019  1  1  0  0  0.00000000       2 ORBIT IGS14 HLM  IGS\n## 2034 172800.00000000   900.00000000 58484 0.0000000000000\n+    2   G01R02\n%c G  cc GPS\n/* COMMENT\n*  2019  1  1  0  0  0.00000000\nPG01  13343.125934  -1432.451212  22345.123456     12.345678\nPR02 -13343.125934   1432.451212 -22345.123456 999999.999999\n*  2019  1  1  0 15  0.00000000\nPG01  13343.125934  -1432.451212  22345.123456     12.345678\nVG01  13343.125934  -1432.451212  22345.123456     12.345678\nEOF\n";
pub const CPF: &str = "H1 CPF  2  NSG 2024 01 01 00 1 lageos1 NONE\nH2  7603901 1155    8820 2024 01 01 00 00 00 2024 01 02 00 00 00   300 1 1 0\nH9\n10 0 60310      0.000000  0  5000123.456 -7000123.456  8000123.456\n10 0 60310    300.000000  0  5000123.456 -7000123.456  8000123.456\n20 0 1.0 2.0 3.0\n99\n";
pub const CRD: &str = "H1 CRD  2 2024 01 01 00\nH2 GRZL 7839 34 2 4\nH3 lageos1 7603901 1155 8820 0 1\nH4 1 2024 01 01 00 00 00 2024 01 01 01 00 00 0 0 0 0 1 0 2 0\nC0 0 532.0 std ml1\n11 43200.123456 0.045678901234 std 2 120.0 50 40.0 0.1 -0.2 1.5 1\n20 43200.0 980.0 290.0 40 0\n11 43320.0 0.0456\nH8\nH9\n";
pub const EOP: &str = "# comment\n2020   1   1  58849   0.076609   0.282353  -0.1771555   0.0004411   0.000102  -0.000039   0.000029   0.000026  0.0000037 0.0000046   0.000035   0.000039\n2020   1   2  58850   0.075609   0.283353  -0.1775555   0.0003411   0.000112  -0.000049   0.000029   0.000026  0.0000037 0.0000046   0.000035   0.000039\n2020   1   3  58851   0.075609   0.283353  0.8224445   0.0003411   0.000112  -0.000049   0.000029   0.000026  0.0000037 0.0000046   0.000035   0.000039\n";
pub const VGOS: &str = "session_code=R1928\nstart_epoch=2020-01-01T18:30:00\nstations=WETTZELL,KOKEE\n";
pub const ORBEX: &str = "%=ORBEX  0.09\n%%\n+FILE/DESCRIPTION\n DESCRIPTION x\n-FILE/DESCRIPTION\n+EPHEMERIS/DATA\n#ORB\n## 2020 001 0.0\n G01 1.0 2.0 3.0 0.1 0.2 0.3\n E02 1.0 2.0 3.0\n#CLK\n## 2020 001 30.5\n G01 1.0e-6\n#ATT\n## 2020 001 60\n G01 1.0 0.0 0.0 0.0\n-EPHEMERIS/DATA\n%END_ORBEX\n";
pub const SINEX: &str = "%=SNX 2.02 IGS 20:001:00000 IGS 20:001:00000 20:002:00000 P 00003 0 S\n+SITE/ID\n ABMF  A 97103M001 P  text                  298 28 20.9  16 15 44.3   -25.6\n-SITE/ID\n+SOLUTION/ESTIMATE\n*INDEX TYPE__ CODE PT SOLN _REF_EPOCH__ UNIT S __ESTIMATED VALUE____ _STD_DEV___\n     1 STAX   ABMF  A    1 20:001:43200 m    2  2.91978579389317e+06 4.7e-04\n     2 STAY   ABMF  A    1 20:001:43200 m    2 -5.38374500000000e+06 8.4e-04\n-SOLUTION/ESTIMATE\n+SOLUTION/EPOCHS\n ABMF  A    1 P 20:001:00000 20:002:00000 20:001:43200\n-SOLUTION/EPOCHS\n%ENDSNX\n";
pub const KERNEL2: &str = "KPL/FK\n\\begindata\nFRAME_1400001_NAME = 'A'\nFRAME_1400001_CLASS = 4\nFRAME_1400001_CLASS_ID = 1400001\nFRAME_1400001_CENTER = 399\nTKFRAME_1400001_SPEC = 'MATRIX'\nTKFRAME_1400001_RELATIVE = 'J2000'\nTKFRAME_1400001_MATRIX = ( 0 1 0 -1 0 0 0 0 1 )\nFRAME_1400002_NAME = 'B'\nFRAME_1400002_CLASS = 4\nFRAME_1400002_CLASS_ID = 1400002\nFRAME_1400002_CENTER = 399\nTKFRAME_1400002_SPEC = 'MATRIX'\nTKFRAME_1400002_RELATIVE = 'A'\nTKFRAME_1400002_MATRIX = ( 1 0 0 0 1 0 0 0 1 )\nFRAME_13000_NAME = 'ITRF'\nFRAME_13000_CLASS = 2\nFRAME_13000_CLASS_ID = 399\nFRAME_13000_CENTER = 399\nBODY399_POLE_RA = ( 0. -0.641 0. )\nBODY399_POLE_DEC = ( 90. -0.557 0. )\nBODY399_PM = ( 190.147 360.9856235 0. )\n";
pub const KERNEL: &str = "KPL/LSK\ncomment \\begindata not here\n\\begindata\nDELTET/DELTA_T_A = 32.184\nDELTET/K = 1.657D-3\nDELTET/EB = 1.671D-2\nDELTET/M = ( 6.239996D0 1.99096871D-7 )\nDELTET/DELTA_AT = ( 10, @1972-JAN-1\n 11, @1972-JUL-1 12, @1973-JAN-1 36, @2015-JUL-1 37, @2017-JAN-1 )\n\\begintext\ntext\n\\begindata\nFRAME_TEST = 1400001\nFRAME_1400001_NAME = 'TEST'\nFRAME_1400001_CLASS = 4\nFRAME_1400001_CLASS_ID = 1400001\nFRAME_1400001_CENTER = 399\nTKFRAME_1400001_RELATIVE = 'J2000'\nTKFRAME_1400001_SPEC = 'ANGLES'\nTKFRAME_1400001_UNITS = 'DEGREES'\nTKFRAME_1400001_AXES = ( 3, 2, 3 )\nTKFRAME_1400001_ANGLES = ( 10.0, 20.0, 30.0 )\nFRAME_1400002_NAME = 'T2'\nFRAME_1400002_CLASS = 4\nTKFRAME_1400002_RELATIVE = 'TEST'\nTKFRAME_1400002_SPEC = 'MATRIX'\nTKFRAME_1400002_MATRIX = ( 0 1 0 -1 0 0 0 0 1 )\nFRAME_13000_NAME = 'ITRF'\nFRAME_13000_CLASS = 2\nFRAME_13000_CLASS_ID = 399\nFRAME_13000_CENTER = 399\nBODY399_POLE_RA = ( 0. -0.641 0. )\nBODY399_POLE_DEC = ( 90. -0.557 0. )\nBODY399_PM = ( 190.147 360.9856235 0. )\nBODY399_RADII = ( 6378.1366 6378.1366 6356.7519 )\nBODY399_NUT_PREC_RA = ( 1 2 )\nSCLK_KERNEL_ID = ( @2001-01-01/00:00 )\nSCLK_DATA_TYPE_82 = ( 1 )\nSCLK01_TIME_SYSTEM_82 = ( 1 )\nSCLK01_N_FIELDS_82 = ( 2 )\nSCLK01_MODULI_82 = ( 4294967296 256 )\nSCLK01_COEFFICIENTS_82 = ( 0.0 -1.0E8 1.0 256000 1.0E8 1.00001 )\nSCLK_PARTITION_START_82 = ( 0.0 )\nSCLK_PARTITION_END_82 = ( 1.0E12 )\nINS-82001_FOV_FRAME = 'TEST'\nINS-82001_FOV_SHAPE = 'CIRCLE'\nINS-82001_BORESIGHT = ( 0 0 1 )\nINS-82001_FOV_BOUNDARY_CORNERS = ( 0.1 0 1 0 0.1 1 )\nINS-82001_FOV_CLASS_SPEC = 'ANGLES'\nNAMES = ( 'a', 'it''s' )\nNAMES += ( 'more' )\n\\begintext\n";

pub fn lab(b: &str, l: &str) -> String { crate::docs::label(b, l) }
pub fn antex_seed() -> Vec<Vec<u8>> {
    let mut d = lab("     1.4            M", "ANTEX VERSION / SYST") + &lab("", "END OF HEADER") + &lab("", "START OF ANTENNA") + &lab("BLOCK IIA           G01                 G032      1992-079A", "TYPE / SERIAL NO") + &lab("     5.0", "DAZI") + &lab("     0.0  17.0   1.0", "ZEN1 / ZEN2 / DZEN") + &lab("     1", "# OF FREQUENCIES") + &lab("  2020     1     1     0     0    0.0000000", "VALID FROM") + &lab("   G01", "START OF FREQUENCY") + &lab("    279.00      0.00   2319.50", "NORTH / EAST / UP");
    d += "   NOAZI   -0.80   -0.90   -0.90   -0.80   -0.40    0.20    0.80    1.30    1.40    1.20    0.70    0.00   -0.40   -0.70   -0.90   -0.90   -0.90   -0.90\n";
    for a in [0.0, 5.0] { d += &format!("{a:8.1}   -0.80   -0.90   -0.90   -0.80   -0.40    0.20    0.80    1.30    1.40    1.20    0.70    0.00   -0.40   -0.70   -0.90   -0.90   -0.90   -0.90\n"); }
    d += &(lab("   G01", "END OF FREQUENCY") + &lab("", "END OF ANTENNA"));
    vec![d.into_bytes()]
}
pub fn nav_seed() -> Vec<Vec<u8>> {
    let mut d = lab("     3.04           N: GNSS NAV DATA    M (Mixed)", "RINEX VERSION / TYPE") + &lab("", "END OF HEADER");
    d += "G01 2020 01 01 00 00 00 -.123456789012D-04  .123456789012D-11  .000000000000D+00\n";
    for _ in 0..7 { d += "      .530000000000D+02 -.123456789012D+02  .456789012345D-08  .123456789012D+01\n"; }
    d += "R02 2020 01 01 00 00 00 -.123456789012D-04  .123456789012D-11  .000000000000D+00\n";
    for _ in 0..3 { d += "      .530000000000D+02 -.123456789012D+02  .456789012345D-08  .123456789012D+01\n"; }
    d += "G32 2020 01 01 02 00 00 -1.23456789012e-04  1.23456789012e-11  0.000000000000e+00\n";
    for _ in 0..7 { d += "     5.300000000000e+01-1.23456789012e+02 4.56789012345e-08 1.23456789012e+01\n"; }
    vec![d.into_bytes()]
}
pub fn obs_seed() -> Vec<Vec<u8>> {
    let d = lab("     3.04           OBSERVATION DATA    M (MIXED)", "RINEX VERSION / TYPE") + &lab("ABMF", "MARKER NAME") + &lab("  2919785.7939 -5383745.0000  1774604.8000", "APPROX POSITION XYZ") + &lab("G    3 C1C L1C S1C", "SYS / # / OBS TYPES") + &lab("    30.000", "INTERVAL") + &lab("", "END OF HEADER")
        + "> 2020 01 01 00 00  0.0000000  0  2\nG01  22345678.901 7 117345678.90107        45.000\nG02  22345678.901                          45.000\n> 2020 01 01 00 00 30.0000000  0  1\nG01  22345678.901 7 117345678.90107        45.000\n";
    vec![d.into_bytes()]
}
pub fn doris_seed() -> Vec<Vec<u8>> {
    let d = lab("     3.00           O                   D", "RINEX VERSION / TYPE") + &lab("D01  THUB THULE                         43001S005  1   0", "STATION REFERENCE") + &lab("D    5 L1 L2 C1 C2 F", "SYS / # / OBS TYPES") + &lab("", "END OF HEADER")
        + "> 2020 01 01 00 00 00.999999999  0  1        0.123456789 0\nD01   1234567.891 1   2345678.912 1   3456789.123 1   4567891.234 1        12.345\n";
    let alt = "> 2020 01 01 00 00 00.0 0 1\nD01 1.0 2.0 3.0 4.0 5.0\nD02 1 2 3\n";
    vec![d.into_bytes(), alt.as_bytes().to_vec()]
}
pub fn sck_seed() -> Vec<Vec<u8>> {
    let mut b = b"SCKERN01".to_vec();
    for v in [3u32, 2, 399, 301, 1, 1] { b.extend(v.to_le_bytes()) }
    b.extend(2451545.0f64.to_le_bytes()); b.extend(2451600.0f64.to_le_bytes()); b.resize(64, 0);
    for i in 0..22 { b.extend((i as f64 * 0.5).to_le_bytes()) }
    vec![b]
}
pub const L1: &str = "1 25544U 98067A   08264.51782528 -.00002182  00000-0 -11606-4 0  2927";
pub const L2: &str = "2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.72125391563537";
pub fn spk_seed() -> Vec<Vec<u8>> {
    let mut g = Rng::new(7);
    (0..6).map(|i| {
        let segs: Vec<crate::daf::Seg> = (0..1 + i % 3).map(|k| match (i + k) % 4 {
            0 => crate::daf::cheb_seg(&mut g, 399, 3, -1e6, 2e6, 1e4, 3), 1 => crate::daf::cheb_seg(&mut g, 301, 3, -1e6, 2e6, 1e5, 6),
            2 => crate::daf::disc_seg(&mut g, 9, 10, 0, -1e6, 2e6, 1e6), _ => crate::daf::disc_seg(&mut g, 13, 3, 0, -1e6, 2e6, 1e8) }).collect();
        crate::daf::Writer { big: i % 2 == 1, per_record: 1 + i % 3 * 20, gap: i % 3, locator: b"DAF/SPK " }.spk(&segs)
    }).collect()
}
pub fn ck_seed() -> Vec<Vec<u8>> {
    (0..4).map(|i| {
        let n = 3 + i;
        let mut w: Vec<f64> = vec![];
        for k in 0..n { let a = k as f64 * 0.1; w.extend([a.cos(), a.sin(), 0.0, 0.0]); }
        for k in 0..n { w.push(1000.0 * k as f64) }
        w.push(n as f64);
        let d = crate::daf::Writer { big: i % 2 == 1, per_record: 20, gap: i % 2, locator: b"DAF/CK  " };
        d.build(2, 6, &[(vec![0.0, 1000.0 * (n - 1) as f64], vec![-82000, 1, 1, 0], w)])
    }).collect()
}
