//! All ordered frame pairs with a public rotation (public API inventory, 2ef53c5).
#[macro_export]
macro_rules! for_all_frame_pairs {
    ($m:ident) => {
        $m! {
            CIRS => EME2000,
            CIRS => EclipticMeanJ2000,
            CIRS => EquatorialMeanJ2000,
            CIRS => EquatorialMeanOfDate,
            CIRS => EquatorialTrueOfDate,
            CIRS => FK4B1950,
            CIRS => GCRS,
            CIRS => Galactic,
            CIRS => ICRF,
            CIRS => ICRS,
            CIRS => TEME,
            CIRS => TIRS,
            ECEF => EME2000,
            ECEF => EclipticMeanJ2000,
            ECEF => EquatorialMeanJ2000,
            ECEF => EquatorialMeanOfDate,
            ECEF => EquatorialTrueOfDate,
            ECEF => FK4B1950,
            ECEF => GCRS,
            ECEF => Galactic,
            ECEF => ICRF,
            ECEF => ICRS,
            ECEF => ITRF,
            ECEF => TEME,
            EME2000 => CIRS,
            EME2000 => ECEF,
            EME2000 => EclipticMeanJ2000,
            EME2000 => EquatorialMeanJ2000,
            EME2000 => EquatorialMeanOfDate,
            EME2000 => EquatorialTrueOfDate,
            EME2000 => GCRS,
            EME2000 => ICRF,
            EME2000 => ICRS,
            EME2000 => ITRF,
            EME2000 => JupiterSystemIII,
            EME2000 => MarsFixed,
            EME2000 => MercuryFixed,
            EME2000 => MoonPrincipalAxes,
            EME2000 => NeptuneFixed,
            EME2000 => PlutoFixed,
            EME2000 => SaturnFixed,
            EME2000 => TIRS,
            EME2000 => UranusFixed,
            EME2000 => VenusFixed,
            EclipticMeanJ2000 => CIRS,
            EclipticMeanJ2000 => ECEF,
            EclipticMeanJ2000 => EME2000,
            EclipticMeanJ2000 => EquatorialMeanJ2000,
            EclipticMeanJ2000 => GCRS,
            EclipticMeanJ2000 => Galactic,
            EclipticMeanJ2000 => ICRF,
            EclipticMeanJ2000 => ICRS,
            EclipticMeanJ2000 => ITRF,
            EclipticMeanJ2000 => JupiterSystemIII,
            EclipticMeanJ2000 => MarsFixed,
            EclipticMeanJ2000 => MercuryFixed,
            EclipticMeanJ2000 => MoonPrincipalAxes,
            EclipticMeanJ2000 => NeptuneFixed,
            EclipticMeanJ2000 => PlutoFixed,
            EclipticMeanJ2000 => SaturnFixed,
            EclipticMeanJ2000 => TIRS,
            EclipticMeanJ2000 => UranusFixed,
            EclipticMeanJ2000 => VenusFixed,
            EquatorialMeanJ2000 => CIRS,
            EquatorialMeanJ2000 => ECEF,
            EquatorialMeanJ2000 => EME2000,
            EquatorialMeanJ2000 => EclipticMeanJ2000,
            EquatorialMeanJ2000 => EquatorialMeanOfDate,
            EquatorialMeanJ2000 => EquatorialTrueOfDate,
            EquatorialMeanJ2000 => FK4B1950,
            EquatorialMeanJ2000 => GCRS,
            EquatorialMeanJ2000 => Galactic,
            EquatorialMeanJ2000 => ICRF,
            EquatorialMeanJ2000 => ICRS,
            EquatorialMeanJ2000 => ITRF,
            EquatorialMeanJ2000 => TIRS,
            EquatorialMeanOfDate => CIRS,
            EquatorialMeanOfDate => ECEF,
            EquatorialMeanOfDate => EME2000,
            EquatorialMeanOfDate => EquatorialMeanJ2000,
            EquatorialMeanOfDate => EquatorialTrueOfDate,
            EquatorialMeanOfDate => ICRF,
            EquatorialMeanOfDate => ICRS,
            EquatorialMeanOfDate => ITRF,
            EquatorialMeanOfDate => TIRS,
            EquatorialTrueOfDate => CIRS,
            EquatorialTrueOfDate => ECEF,
            EquatorialTrueOfDate => EME2000,
            EquatorialTrueOfDate => EquatorialMeanJ2000,
            EquatorialTrueOfDate => EquatorialMeanOfDate,
            EquatorialTrueOfDate => GCRS,
            EquatorialTrueOfDate => ICRF,
            EquatorialTrueOfDate => ICRS,
            EquatorialTrueOfDate => ITRF,
            EquatorialTrueOfDate => TEME,
            EquatorialTrueOfDate => TIRS,
            FK4B1950 => CIRS,
            FK4B1950 => ECEF,
            FK4B1950 => EquatorialMeanJ2000,
            FK4B1950 => ICRS,
            FK4B1950 => ITRF,
            FK4B1950 => TIRS,
            GCRS => CIRS,
            GCRS => ECEF,
            GCRS => EME2000,
            GCRS => EclipticMeanJ2000,
            GCRS => EquatorialMeanJ2000,
            GCRS => EquatorialTrueOfDate,
            GCRS => ICRS,
            GCRS => ITRF,
            GCRS => TIRS,
            Galactic => CIRS,
            Galactic => ECEF,
            Galactic => EclipticMeanJ2000,
            Galactic => EquatorialMeanJ2000,
            Galactic => ICRS,
            Galactic => ITRF,
            Galactic => TIRS,
            ICRF => CIRS,
            ICRF => ECEF,
            ICRF => EME2000,
            ICRF => EclipticMeanJ2000,
            ICRF => EquatorialMeanJ2000,
            ICRF => EquatorialMeanOfDate,
            ICRF => EquatorialTrueOfDate,
            ICRF => ICRS,
            ICRF => ITRF,
            ICRF => TIRS,
            ICRS => CIRS,
            ICRS => ECEF,
            ICRS => EME2000,
            ICRS => EclipticMeanJ2000,
            ICRS => EquatorialMeanJ2000,
            ICRS => EquatorialMeanOfDate,
            ICRS => EquatorialTrueOfDate,
            ICRS => FK4B1950,
            ICRS => GCRS,
            ICRS => Galactic,
            ICRS => ICRF,
            ICRS => ITRF,
            ICRS => JupiterSystemIII,
            ICRS => MarsFixed,
            ICRS => MercuryFixed,
            ICRS => MoonPrincipalAxes,
            ICRS => NeptuneFixed,
            ICRS => PlutoFixed,
            ICRS => SaturnFixed,
            ICRS => TEME,
            ICRS => TIRS,
            ICRS => UranusFixed,
            ICRS => VenusFixed,
            ITRF => ECEF,
            ITRF => EME2000,
            ITRF => EclipticMeanJ2000,
            ITRF => EquatorialMeanJ2000,
            ITRF => EquatorialMeanOfDate,
            ITRF => EquatorialTrueOfDate,
            ITRF => FK4B1950,
            ITRF => GCRS,
            ITRF => Galactic,
            ITRF => ICRF,
            ITRF => ICRS,
            ITRF => TEME,
            ITRF => TIRS,
            JupiterSystemIII => EME2000,
            JupiterSystemIII => EclipticMeanJ2000,
            JupiterSystemIII => ICRS,
            MarsFixed => EME2000,
            MarsFixed => EclipticMeanJ2000,
            MarsFixed => ICRS,
            MercuryFixed => EME2000,
            MercuryFixed => EclipticMeanJ2000,
            MercuryFixed => ICRS,
            MoonPrincipalAxes => EME2000,
            MoonPrincipalAxes => EclipticMeanJ2000,
            MoonPrincipalAxes => ICRS,
            NeptuneFixed => EME2000,
            NeptuneFixed => EclipticMeanJ2000,
            NeptuneFixed => ICRS,
            PlutoFixed => EME2000,
            PlutoFixed => EclipticMeanJ2000,
            PlutoFixed => ICRS,
            SaturnFixed => EME2000,
            SaturnFixed => EclipticMeanJ2000,
            SaturnFixed => ICRS,
            TEME => CIRS,
            TEME => ECEF,
            TEME => EquatorialTrueOfDate,
            TEME => ICRS,
            TEME => ITRF,
            TEME => TIRS,
            TIRS => CIRS,
            TIRS => EME2000,
            TIRS => EclipticMeanJ2000,
            TIRS => EquatorialMeanJ2000,
            TIRS => EquatorialMeanOfDate,
            TIRS => EquatorialTrueOfDate,
            TIRS => FK4B1950,
            TIRS => GCRS,
            TIRS => Galactic,
            TIRS => ICRF,
            TIRS => ICRS,
            TIRS => ITRF,
            TIRS => TEME,
            UranusFixed => EME2000,
            UranusFixed => EclipticMeanJ2000,
            UranusFixed => ICRS,
            VenusFixed => EME2000,
            VenusFixed => EclipticMeanJ2000,
            VenusFixed => ICRS,
        }
    };
}
