//! Generated shape worlds: one world per component count, rotating through component types of every
//! size class. (Written once by hand-run script; regenerate by editing the table.)

use mc::reg::*;

pub type Shaa = Nth<0, Tok>;
pub type Shab = Nth<1, Val>;
pub type Shac = Nth<2, Byte>;
pub type Shad = Nth<3, Pad>;
pub type Shae = Nth<4, Zst>;
pub type Shaf = Nth<5, Wide>;
pub type Shag = Nth<6, Odd>;
pub type Shah = Nth<7, Empty>;
pub type Shba = Nth<8, Tok>;
pub type Shbb = Nth<9, Val>;
pub type Shbc = Nth<10, Byte>;
pub type Shbd = Nth<11, Pad>;
pub type Shbe = Nth<12, Zst>;
pub type Shbf = Nth<13, Wide>;
pub type Shbg = Nth<14, Odd>;
pub type Shbh = Nth<15, Mid>;
pub type Shca = Nth<16, Tok>;
pub type Shcb = Nth<17, Val>;
pub type Shcc = Nth<18, Byte>;
pub type Shcd = Nth<19, Pad>;
pub type Shce = Nth<20, Al16>;
pub type Shcf = Nth<21, Wide>;
pub type Shcg = Nth<22, Odd>;
pub type Shch = Nth<23, Huge>;
pub type Shda = Nth<24, Tok>;
pub type Shdb = Nth<25, Val>;
pub type Shdc = Nth<26, Mid>;
pub type Shdd = Nth<27, Pad>;
pub type Shde = Nth<28, Zst>;
pub type Shdf = Nth<29, Wide>;
pub type Shdg = Nth<30, Al32>;
pub type Shdh = Nth<31, Empty>;


pub mod s1 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape1);
        #[archetype_id(7)]
        ecs_archetype!(ArchS, Shad);
    }
    mc::shape_impl!(Shape1, Shape1Capacity, 1, [0 Shad shad]);
}

pub mod s2 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape2);
        #[archetype_id(14)]
        ecs_archetype!(ArchS, Shag, Shah);
    }
    mc::shape_impl!(Shape2, Shape2Capacity, 2, [0 Shag shag, 1 Shah shah]);
}

pub mod s3 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape3);
        #[archetype_id(21)]
        ecs_archetype!(ArchS, Shbb, Shbc, Shbd);
    }
    mc::shape_impl!(Shape3, Shape3Capacity, 3, [0 Shbb shbb, 1 Shbc shbc, 2 Shbd shbd]);
}

pub mod s4 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape4);
        #[archetype_id(28)]
        ecs_archetype!(ArchS, Shbe, Shbf, Shbg, Shbh);
    }
    mc::shape_impl!(Shape4, Shape4Capacity, 4, [0 Shbe shbe, 1 Shbf shbf, 2 Shbg shbg, 3 Shbh shbh]);
}

pub mod s5 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape5);
        #[archetype_id(35)]
        ecs_archetype!(ArchS, Shbh, Shca, Shcb, Shcc, Shcd);
    }
    mc::shape_impl!(Shape5, Shape5Capacity, 5, [0 Shbh shbh, 1 Shca shca, 2 Shcb shcb, 3 Shcc shcc, 4 Shcd shcd]);
}

pub mod s6 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape6);
        #[archetype_id(42)]
        ecs_archetype!(ArchS, Shcc, Shcd, Shce, Shcf, Shcg, Shch);
    }
    mc::shape_impl!(Shape6, Shape6Capacity, 6, [0 Shcc shcc, 1 Shcd shcd, 2 Shce shce, 3 Shcf shcf, 4 Shcg shcg, 5 Shch shch]);
}

pub mod s7 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape7);
        #[archetype_id(49)]
        ecs_archetype!(ArchS, Shcf, Shcg, Shch, Shda, Shdb, Shdc, Shdd);
    }
    mc::shape_impl!(Shape7, Shape7Capacity, 7, [0 Shcf shcf, 1 Shcg shcg, 2 Shch shch, 3 Shda shda, 4 Shdb shdb, 5 Shdc shdc, 6 Shdd shdd]);
}

pub mod s8 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape8);
        #[archetype_id(56)]
        ecs_archetype!(ArchS, Shda, Shdb, Shdc, Shdd, Shde, Shdf, Shdg, Shdh);
    }
    mc::shape_impl!(Shape8, Shape8Capacity, 8, [0 Shda shda, 1 Shdb shdb, 2 Shdc shdc, 3 Shdd shdd, 4 Shde shde, 5 Shdf shdf, 6 Shdg shdg, 7 Shdh shdh]);
}

pub mod s9 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape9);
        #[archetype_id(63)]
        ecs_archetype!(ArchS, Shdd, Shde, Shdf, Shdg, Shdh, Shaa, Shab, Shac, Shad);
    }
    mc::shape_impl!(Shape9, Shape9Capacity, 9, [0 Shdd shdd, 1 Shde shde, 2 Shdf shdf, 3 Shdg shdg, 4 Shdh shdh, 5 Shaa shaa, 6 Shab shab, 7 Shac shac, 8 Shad shad]);
}

pub mod s10 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape10);
        #[archetype_id(70)]
        ecs_archetype!(ArchS, Shdg, Shdh, Shaa, Shab, Shac, Shad, Shae, Shaf, Shag, Shah);
    }
    mc::shape_impl!(Shape10, Shape10Capacity, 10, [0 Shdg shdg, 1 Shdh shdh, 2 Shaa shaa, 3 Shab shab, 4 Shac shac, 5 Shad shad, 6 Shae shae, 7 Shaf shaf, 8 Shag shag, 9 Shah shah]);
}

pub mod s11 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape11);
        #[archetype_id(77)]
        ecs_archetype!(ArchS, Shab, Shac, Shad, Shae, Shaf, Shag, Shah, Shba, Shbb, Shbc, Shbd);
    }
    mc::shape_impl!(Shape11, Shape11Capacity, 11, [0 Shab shab, 1 Shac shac, 2 Shad shad, 3 Shae shae, 4 Shaf shaf, 5 Shag shag, 6 Shah shah, 7 Shba shba, 8 Shbb shbb, 9 Shbc shbc, 10 Shbd shbd]);
}

pub mod s12 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape12);
        #[archetype_id(84)]
        ecs_archetype!(ArchS, Shae, Shaf, Shag, Shah, Shba, Shbb, Shbc, Shbd, Shbe, Shbf, Shbg, Shbh);
    }
    mc::shape_impl!(Shape12, Shape12Capacity, 12, [0 Shae shae, 1 Shaf shaf, 2 Shag shag, 3 Shah shah, 4 Shba shba, 5 Shbb shbb, 6 Shbc shbc, 7 Shbd shbd, 8 Shbe shbe, 9 Shbf shbf, 10 Shbg shbg, 11 Shbh shbh]);
}

pub mod s13 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape13);
        #[archetype_id(91)]
        ecs_archetype!(ArchS, Shah, Shba, Shbb, Shbc, Shbd, Shbe, Shbf, Shbg, Shbh, Shca, Shcb, Shcc, Shcd);
    }
    mc::shape_impl!(Shape13, Shape13Capacity, 13, [0 Shah shah, 1 Shba shba, 2 Shbb shbb, 3 Shbc shbc, 4 Shbd shbd, 5 Shbe shbe, 6 Shbf shbf, 7 Shbg shbg, 8 Shbh shbh, 9 Shca shca, 10 Shcb shcb, 11 Shcc shcc, 12 Shcd shcd]);
}

pub mod s14 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape14);
        #[archetype_id(98)]
        ecs_archetype!(ArchS, Shbc, Shbd, Shbe, Shbf, Shbg, Shbh, Shca, Shcb, Shcc, Shcd, Shce, Shcf, Shcg, Shch);
    }
    mc::shape_impl!(Shape14, Shape14Capacity, 14, [0 Shbc shbc, 1 Shbd shbd, 2 Shbe shbe, 3 Shbf shbf, 4 Shbg shbg, 5 Shbh shbh, 6 Shca shca, 7 Shcb shcb, 8 Shcc shcc, 9 Shcd shcd, 10 Shce shce, 11 Shcf shcf, 12 Shcg shcg, 13 Shch shch]);
}

pub mod s15 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape15);
        #[archetype_id(105)]
        ecs_archetype!(ArchS, Shbf, Shbg, Shbh, Shca, Shcb, Shcc, Shcd, Shce, Shcf, Shcg, Shch, Shda, Shdb, Shdc, Shdd);
    }
    mc::shape_impl!(Shape15, Shape15Capacity, 15, [0 Shbf shbf, 1 Shbg shbg, 2 Shbh shbh, 3 Shca shca, 4 Shcb shcb, 5 Shcc shcc, 6 Shcd shcd, 7 Shce shce, 8 Shcf shcf, 9 Shcg shcg, 10 Shch shch, 11 Shda shda, 12 Shdb shdb, 13 Shdc shdc, 14 Shdd shdd]);
}

pub mod s16 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape16);
        #[archetype_id(112)]
        ecs_archetype!(ArchS, Shca, Shcb, Shcc, Shcd, Shce, Shcf, Shcg, Shch, Shda, Shdb, Shdc, Shdd, Shde, Shdf, Shdg, Shdh);
    }
    mc::shape_impl!(Shape16, Shape16Capacity, 16, [0 Shca shca, 1 Shcb shcb, 2 Shcc shcc, 3 Shcd shcd, 4 Shce shce, 5 Shcf shcf, 6 Shcg shcg, 7 Shch shch, 8 Shda shda, 9 Shdb shdb, 10 Shdc shdc, 11 Shdd shdd, 12 Shde shde, 13 Shdf shdf, 14 Shdg shdg, 15 Shdh shdh]);
}
#[cfg(feature = "comp32")]
pub mod s17 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape17);
        #[archetype_id(119)]
        ecs_archetype!(ArchS, Shcd, Shce, Shcf, Shcg, Shch, Shda, Shdb, Shdc, Shdd, Shde, Shdf, Shdg, Shdh, Shaa, Shab, Shac, Shad);
    }
    mc::shape_impl!(Shape17, Shape17Capacity, 17, [0 Shcd shcd, 1 Shce shce, 2 Shcf shcf, 3 Shcg shcg, 4 Shch shch, 5 Shda shda, 6 Shdb shdb, 7 Shdc shdc, 8 Shdd shdd, 9 Shde shde, 10 Shdf shdf, 11 Shdg shdg, 12 Shdh shdh, 13 Shaa shaa, 14 Shab shab, 15 Shac shac, 16 Shad shad]);
}
#[cfg(feature = "comp32")]
pub mod s18 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape18);
        #[archetype_id(126)]
        ecs_archetype!(ArchS, Shcg, Shch, Shda, Shdb, Shdc, Shdd, Shde, Shdf, Shdg, Shdh, Shaa, Shab, Shac, Shad, Shae, Shaf, Shag, Shah);
    }
    mc::shape_impl!(Shape18, Shape18Capacity, 18, [0 Shcg shcg, 1 Shch shch, 2 Shda shda, 3 Shdb shdb, 4 Shdc shdc, 5 Shdd shdd, 6 Shde shde, 7 Shdf shdf, 8 Shdg shdg, 9 Shdh shdh, 10 Shaa shaa, 11 Shab shab, 12 Shac shac, 13 Shad shad, 14 Shae shae, 15 Shaf shaf, 16 Shag shag, 17 Shah shah]);
}
#[cfg(feature = "comp32")]
pub mod s19 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape19);
        #[archetype_id(133)]
        ecs_archetype!(ArchS, Shdb, Shdc, Shdd, Shde, Shdf, Shdg, Shdh, Shaa, Shab, Shac, Shad, Shae, Shaf, Shag, Shah, Shba, Shbb, Shbc, Shbd);
    }
    mc::shape_impl!(Shape19, Shape19Capacity, 19, [0 Shdb shdb, 1 Shdc shdc, 2 Shdd shdd, 3 Shde shde, 4 Shdf shdf, 5 Shdg shdg, 6 Shdh shdh, 7 Shaa shaa, 8 Shab shab, 9 Shac shac, 10 Shad shad, 11 Shae shae, 12 Shaf shaf, 13 Shag shag, 14 Shah shah, 15 Shba shba, 16 Shbb shbb, 17 Shbc shbc, 18 Shbd shbd]);
}
#[cfg(feature = "comp32")]
pub mod s20 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape20);
        #[archetype_id(140)]
        ecs_archetype!(ArchS, Shde, Shdf, Shdg, Shdh, Shaa, Shab, Shac, Shad, Shae, Shaf, Shag, Shah, Shba, Shbb, Shbc, Shbd, Shbe, Shbf, Shbg, Shbh);
    }
    mc::shape_impl!(Shape20, Shape20Capacity, 20, [0 Shde shde, 1 Shdf shdf, 2 Shdg shdg, 3 Shdh shdh, 4 Shaa shaa, 5 Shab shab, 6 Shac shac, 7 Shad shad, 8 Shae shae, 9 Shaf shaf, 10 Shag shag, 11 Shah shah, 12 Shba shba, 13 Shbb shbb, 14 Shbc shbc, 15 Shbd shbd, 16 Shbe shbe, 17 Shbf shbf, 18 Shbg shbg, 19 Shbh shbh]);
}
#[cfg(feature = "comp32")]
pub mod s21 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape21);
        #[archetype_id(147)]
        ecs_archetype!(ArchS, Shdh, Shaa, Shab, Shac, Shad, Shae, Shaf, Shag, Shah, Shba, Shbb, Shbc, Shbd, Shbe, Shbf, Shbg, Shbh, Shca, Shcb, Shcc, Shcd);
    }
    mc::shape_impl!(Shape21, Shape21Capacity, 21, [0 Shdh shdh, 1 Shaa shaa, 2 Shab shab, 3 Shac shac, 4 Shad shad, 5 Shae shae, 6 Shaf shaf, 7 Shag shag, 8 Shah shah, 9 Shba shba, 10 Shbb shbb, 11 Shbc shbc, 12 Shbd shbd, 13 Shbe shbe, 14 Shbf shbf, 15 Shbg shbg, 16 Shbh shbh, 17 Shca shca, 18 Shcb shcb, 19 Shcc shcc, 20 Shcd shcd]);
}
#[cfg(feature = "comp32")]
pub mod s22 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape22);
        #[archetype_id(154)]
        ecs_archetype!(ArchS, Shac, Shad, Shae, Shaf, Shag, Shah, Shba, Shbb, Shbc, Shbd, Shbe, Shbf, Shbg, Shbh, Shca, Shcb, Shcc, Shcd, Shce, Shcf, Shcg, Shch);
    }
    mc::shape_impl!(Shape22, Shape22Capacity, 22, [0 Shac shac, 1 Shad shad, 2 Shae shae, 3 Shaf shaf, 4 Shag shag, 5 Shah shah, 6 Shba shba, 7 Shbb shbb, 8 Shbc shbc, 9 Shbd shbd, 10 Shbe shbe, 11 Shbf shbf, 12 Shbg shbg, 13 Shbh shbh, 14 Shca shca, 15 Shcb shcb, 16 Shcc shcc, 17 Shcd shcd, 18 Shce shce, 19 Shcf shcf, 20 Shcg shcg, 21 Shch shch]);
}
#[cfg(feature = "comp32")]
pub mod s23 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape23);
        #[archetype_id(161)]
        ecs_archetype!(ArchS, Shaf, Shag, Shah, Shba, Shbb, Shbc, Shbd, Shbe, Shbf, Shbg, Shbh, Shca, Shcb, Shcc, Shcd, Shce, Shcf, Shcg, Shch, Shda, Shdb, Shdc, Shdd);
    }
    mc::shape_impl!(Shape23, Shape23Capacity, 23, [0 Shaf shaf, 1 Shag shag, 2 Shah shah, 3 Shba shba, 4 Shbb shbb, 5 Shbc shbc, 6 Shbd shbd, 7 Shbe shbe, 8 Shbf shbf, 9 Shbg shbg, 10 Shbh shbh, 11 Shca shca, 12 Shcb shcb, 13 Shcc shcc, 14 Shcd shcd, 15 Shce shce, 16 Shcf shcf, 17 Shcg shcg, 18 Shch shch, 19 Shda shda, 20 Shdb shdb, 21 Shdc shdc, 22 Shdd shdd]);
}
#[cfg(feature = "comp32")]
pub mod s24 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape24);
        #[archetype_id(168)]
        ecs_archetype!(ArchS, Shba, Shbb, Shbc, Shbd, Shbe, Shbf, Shbg, Shbh, Shca, Shcb, Shcc, Shcd, Shce, Shcf, Shcg, Shch, Shda, Shdb, Shdc, Shdd, Shde, Shdf, Shdg, Shdh);
    }
    mc::shape_impl!(Shape24, Shape24Capacity, 24, [0 Shba shba, 1 Shbb shbb, 2 Shbc shbc, 3 Shbd shbd, 4 Shbe shbe, 5 Shbf shbf, 6 Shbg shbg, 7 Shbh shbh, 8 Shca shca, 9 Shcb shcb, 10 Shcc shcc, 11 Shcd shcd, 12 Shce shce, 13 Shcf shcf, 14 Shcg shcg, 15 Shch shch, 16 Shda shda, 17 Shdb shdb, 18 Shdc shdc, 19 Shdd shdd, 20 Shde shde, 21 Shdf shdf, 22 Shdg shdg, 23 Shdh shdh]);
}
#[cfg(feature = "comp32")]
pub mod s25 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape25);
        #[archetype_id(175)]
        ecs_archetype!(ArchS, Shbd, Shbe, Shbf, Shbg, Shbh, Shca, Shcb, Shcc, Shcd, Shce, Shcf, Shcg, Shch, Shda, Shdb, Shdc, Shdd, Shde, Shdf, Shdg, Shdh, Shaa, Shab, Shac, Shad);
    }
    mc::shape_impl!(Shape25, Shape25Capacity, 25, [0 Shbd shbd, 1 Shbe shbe, 2 Shbf shbf, 3 Shbg shbg, 4 Shbh shbh, 5 Shca shca, 6 Shcb shcb, 7 Shcc shcc, 8 Shcd shcd, 9 Shce shce, 10 Shcf shcf, 11 Shcg shcg, 12 Shch shch, 13 Shda shda, 14 Shdb shdb, 15 Shdc shdc, 16 Shdd shdd, 17 Shde shde, 18 Shdf shdf, 19 Shdg shdg, 20 Shdh shdh, 21 Shaa shaa, 22 Shab shab, 23 Shac shac, 24 Shad shad]);
}
#[cfg(feature = "comp32")]
pub mod s26 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape26);
        #[archetype_id(182)]
        ecs_archetype!(ArchS, Shbg, Shbh, Shca, Shcb, Shcc, Shcd, Shce, Shcf, Shcg, Shch, Shda, Shdb, Shdc, Shdd, Shde, Shdf, Shdg, Shdh, Shaa, Shab, Shac, Shad, Shae, Shaf, Shag, Shah);
    }
    mc::shape_impl!(Shape26, Shape26Capacity, 26, [0 Shbg shbg, 1 Shbh shbh, 2 Shca shca, 3 Shcb shcb, 4 Shcc shcc, 5 Shcd shcd, 6 Shce shce, 7 Shcf shcf, 8 Shcg shcg, 9 Shch shch, 10 Shda shda, 11 Shdb shdb, 12 Shdc shdc, 13 Shdd shdd, 14 Shde shde, 15 Shdf shdf, 16 Shdg shdg, 17 Shdh shdh, 18 Shaa shaa, 19 Shab shab, 20 Shac shac, 21 Shad shad, 22 Shae shae, 23 Shaf shaf, 24 Shag shag, 25 Shah shah]);
}
#[cfg(feature = "comp32")]
pub mod s27 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape27);
        #[archetype_id(189)]
        ecs_archetype!(ArchS, Shcb, Shcc, Shcd, Shce, Shcf, Shcg, Shch, Shda, Shdb, Shdc, Shdd, Shde, Shdf, Shdg, Shdh, Shaa, Shab, Shac, Shad, Shae, Shaf, Shag, Shah, Shba, Shbb, Shbc, Shbd);
    }
    mc::shape_impl!(Shape27, Shape27Capacity, 27, [0 Shcb shcb, 1 Shcc shcc, 2 Shcd shcd, 3 Shce shce, 4 Shcf shcf, 5 Shcg shcg, 6 Shch shch, 7 Shda shda, 8 Shdb shdb, 9 Shdc shdc, 10 Shdd shdd, 11 Shde shde, 12 Shdf shdf, 13 Shdg shdg, 14 Shdh shdh, 15 Shaa shaa, 16 Shab shab, 17 Shac shac, 18 Shad shad, 19 Shae shae, 20 Shaf shaf, 21 Shag shag, 22 Shah shah, 23 Shba shba, 24 Shbb shbb, 25 Shbc shbc, 26 Shbd shbd]);
}
#[cfg(feature = "comp32")]
pub mod s28 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape28);
        #[archetype_id(196)]
        ecs_archetype!(ArchS, Shce, Shcf, Shcg, Shch, Shda, Shdb, Shdc, Shdd, Shde, Shdf, Shdg, Shdh, Shaa, Shab, Shac, Shad, Shae, Shaf, Shag, Shah, Shba, Shbb, Shbc, Shbd, Shbe, Shbf, Shbg, Shbh);
    }
    mc::shape_impl!(Shape28, Shape28Capacity, 28, [0 Shce shce, 1 Shcf shcf, 2 Shcg shcg, 3 Shch shch, 4 Shda shda, 5 Shdb shdb, 6 Shdc shdc, 7 Shdd shdd, 8 Shde shde, 9 Shdf shdf, 10 Shdg shdg, 11 Shdh shdh, 12 Shaa shaa, 13 Shab shab, 14 Shac shac, 15 Shad shad, 16 Shae shae, 17 Shaf shaf, 18 Shag shag, 19 Shah shah, 20 Shba shba, 21 Shbb shbb, 22 Shbc shbc, 23 Shbd shbd, 24 Shbe shbe, 25 Shbf shbf, 26 Shbg shbg, 27 Shbh shbh]);
}
#[cfg(feature = "comp32")]
pub mod s29 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape29);
        #[archetype_id(203)]
        ecs_archetype!(ArchS, Shch, Shda, Shdb, Shdc, Shdd, Shde, Shdf, Shdg, Shdh, Shaa, Shab, Shac, Shad, Shae, Shaf, Shag, Shah, Shba, Shbb, Shbc, Shbd, Shbe, Shbf, Shbg, Shbh, Shca, Shcb, Shcc, Shcd);
    }
    mc::shape_impl!(Shape29, Shape29Capacity, 29, [0 Shch shch, 1 Shda shda, 2 Shdb shdb, 3 Shdc shdc, 4 Shdd shdd, 5 Shde shde, 6 Shdf shdf, 7 Shdg shdg, 8 Shdh shdh, 9 Shaa shaa, 10 Shab shab, 11 Shac shac, 12 Shad shad, 13 Shae shae, 14 Shaf shaf, 15 Shag shag, 16 Shah shah, 17 Shba shba, 18 Shbb shbb, 19 Shbc shbc, 20 Shbd shbd, 21 Shbe shbe, 22 Shbf shbf, 23 Shbg shbg, 24 Shbh shbh, 25 Shca shca, 26 Shcb shcb, 27 Shcc shcc, 28 Shcd shcd]);
}
#[cfg(feature = "comp32")]
pub mod s30 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape30);
        #[archetype_id(210)]
        ecs_archetype!(ArchS, Shdc, Shdd, Shde, Shdf, Shdg, Shdh, Shaa, Shab, Shac, Shad, Shae, Shaf, Shag, Shah, Shba, Shbb, Shbc, Shbd, Shbe, Shbf, Shbg, Shbh, Shca, Shcb, Shcc, Shcd, Shce, Shcf, Shcg, Shch);
    }
    mc::shape_impl!(Shape30, Shape30Capacity, 30, [0 Shdc shdc, 1 Shdd shdd, 2 Shde shde, 3 Shdf shdf, 4 Shdg shdg, 5 Shdh shdh, 6 Shaa shaa, 7 Shab shab, 8 Shac shac, 9 Shad shad, 10 Shae shae, 11 Shaf shaf, 12 Shag shag, 13 Shah shah, 14 Shba shba, 15 Shbb shbb, 16 Shbc shbc, 17 Shbd shbd, 18 Shbe shbe, 19 Shbf shbf, 20 Shbg shbg, 21 Shbh shbh, 22 Shca shca, 23 Shcb shcb, 24 Shcc shcc, 25 Shcd shcd, 26 Shce shce, 27 Shcf shcf, 28 Shcg shcg, 29 Shch shch]);
}
#[cfg(feature = "comp32")]
pub mod s31 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape31);
        #[archetype_id(217)]
        ecs_archetype!(ArchS, Shdf, Shdg, Shdh, Shaa, Shab, Shac, Shad, Shae, Shaf, Shag, Shah, Shba, Shbb, Shbc, Shbd, Shbe, Shbf, Shbg, Shbh, Shca, Shcb, Shcc, Shcd, Shce, Shcf, Shcg, Shch, Shda, Shdb, Shdc, Shdd);
    }
    mc::shape_impl!(Shape31, Shape31Capacity, 31, [0 Shdf shdf, 1 Shdg shdg, 2 Shdh shdh, 3 Shaa shaa, 4 Shab shab, 5 Shac shac, 6 Shad shad, 7 Shae shae, 8 Shaf shaf, 9 Shag shag, 10 Shah shah, 11 Shba shba, 12 Shbb shbb, 13 Shbc shbc, 14 Shbd shbd, 15 Shbe shbe, 16 Shbf shbf, 17 Shbg shbg, 18 Shbh shbh, 19 Shca shca, 20 Shcb shcb, 21 Shcc shcc, 22 Shcd shcd, 23 Shce shce, 24 Shcf shcf, 25 Shcg shcg, 26 Shch shch, 27 Shda shda, 28 Shdb shdb, 29 Shdc shdc, 30 Shdd shdd]);
}
#[cfg(feature = "comp32")]
pub mod s32 {
    use super::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(Shape32);
        #[archetype_id(224)]
        ecs_archetype!(ArchS, Shaa, Shab, Shac, Shad, Shae, Shaf, Shag, Shah, Shba, Shbb, Shbc, Shbd, Shbe, Shbf, Shbg, Shbh, Shca, Shcb, Shcc, Shcd, Shce, Shcf, Shcg, Shch, Shda, Shdb, Shdc, Shdd, Shde, Shdf, Shdg, Shdh);
    }
    mc::shape_impl!(Shape32, Shape32Capacity, 32, [0 Shaa shaa, 1 Shab shab, 2 Shac shac, 3 Shad shad, 4 Shae shae, 5 Shaf shaf, 6 Shag shag, 7 Shah shah, 8 Shba shba, 9 Shbb shbb, 10 Shbc shbc, 11 Shbd shbd, 12 Shbe shbe, 13 Shbf shbf, 14 Shbg shbg, 15 Shbh shbh, 16 Shca shca, 17 Shcb shcb, 18 Shcc shcc, 19 Shcd shcd, 20 Shce shce, 21 Shcf shcf, 22 Shcg shcg, 23 Shch shch, 24 Shda shda, 25 Shdb shdb, 26 Shdc shdc, 27 Shdd shdd, 28 Shde shde, 29 Shdf shdf, 30 Shdg shdg, 31 Shdh shdh]);
}

pub fn run(n: usize, ch: &mut mc::explore::Ch, depth: usize) -> mc::explore::R {
    match n {
        1 => s1::run(ch, depth),
        2 => s2::run(ch, depth),
        3 => s3::run(ch, depth),
        4 => s4::run(ch, depth),
        5 => s5::run(ch, depth),
        6 => s6::run(ch, depth),
        7 => s7::run(ch, depth),
        8 => s8::run(ch, depth),
        9 => s9::run(ch, depth),
        10 => s10::run(ch, depth),
        11 => s11::run(ch, depth),
        12 => s12::run(ch, depth),
        13 => s13::run(ch, depth),
        14 => s14::run(ch, depth),
        15 => s15::run(ch, depth),
        16 => s16::run(ch, depth),
        #[cfg(feature = "comp32")]
        17 => s17::run(ch, depth),
        #[cfg(feature = "comp32")]
        18 => s18::run(ch, depth),
        #[cfg(feature = "comp32")]
        19 => s19::run(ch, depth),
        #[cfg(feature = "comp32")]
        20 => s20::run(ch, depth),
        #[cfg(feature = "comp32")]
        21 => s21::run(ch, depth),
        #[cfg(feature = "comp32")]
        22 => s22::run(ch, depth),
        #[cfg(feature = "comp32")]
        23 => s23::run(ch, depth),
        #[cfg(feature = "comp32")]
        24 => s24::run(ch, depth),
        #[cfg(feature = "comp32")]
        25 => s25::run(ch, depth),
        #[cfg(feature = "comp32")]
        26 => s26::run(ch, depth),
        #[cfg(feature = "comp32")]
        27 => s27::run(ch, depth),
        #[cfg(feature = "comp32")]
        28 => s28::run(ch, depth),
        #[cfg(feature = "comp32")]
        29 => s29::run(ch, depth),
        #[cfg(feature = "comp32")]
        30 => s30::run(ch, depth),
        #[cfg(feature = "comp32")]
        31 => s31::run(ch, depth),
        #[cfg(feature = "comp32")]
        32 => s32::run(ch, depth),
        _ => unreachable!(),
    }
}

pub fn faults(n: usize, ch: &mut mc::explore::Ch) -> mc::explore::R {
    match n {
        1 => s1::faults(ch),
        2 => s2::faults(ch),
        3 => s3::faults(ch),
        4 => s4::faults(ch),
        5 => s5::faults(ch),
        6 => s6::faults(ch),
        7 => s7::faults(ch),
        8 => s8::faults(ch),
        9 => s9::faults(ch),
        10 => s10::faults(ch),
        11 => s11::faults(ch),
        12 => s12::faults(ch),
        13 => s13::faults(ch),
        14 => s14::faults(ch),
        15 => s15::faults(ch),
        16 => s16::faults(ch),
        #[cfg(feature = "comp32")]
        17 => s17::faults(ch),
        #[cfg(feature = "comp32")]
        18 => s18::faults(ch),
        #[cfg(feature = "comp32")]
        19 => s19::faults(ch),
        #[cfg(feature = "comp32")]
        20 => s20::faults(ch),
        #[cfg(feature = "comp32")]
        21 => s21::faults(ch),
        #[cfg(feature = "comp32")]
        22 => s22::faults(ch),
        #[cfg(feature = "comp32")]
        23 => s23::faults(ch),
        #[cfg(feature = "comp32")]
        24 => s24::faults(ch),
        #[cfg(feature = "comp32")]
        25 => s25::faults(ch),
        #[cfg(feature = "comp32")]
        26 => s26::faults(ch),
        #[cfg(feature = "comp32")]
        27 => s27::faults(ch),
        #[cfg(feature = "comp32")]
        28 => s28::faults(ch),
        #[cfg(feature = "comp32")]
        29 => s29::faults(ch),
        #[cfg(feature = "comp32")]
        30 => s30::faults(ch),
        #[cfg(feature = "comp32")]
        31 => s31::faults(ch),
        #[cfg(feature = "comp32")]
        32 => s32::faults(ch),
        _ => unreachable!(),
    }
}

pub fn borrows(n: usize, ch: &mut mc::explore::Ch) -> mc::explore::R {
    match n {
        1 => s1::borrows(ch),
        2 => s2::borrows(ch),
        3 => s3::borrows(ch),
        4 => s4::borrows(ch),
        5 => s5::borrows(ch),
        6 => s6::borrows(ch),
        7 => s7::borrows(ch),
        8 => s8::borrows(ch),
        9 => s9::borrows(ch),
        10 => s10::borrows(ch),
        11 => s11::borrows(ch),
        12 => s12::borrows(ch),
        13 => s13::borrows(ch),
        14 => s14::borrows(ch),
        15 => s15::borrows(ch),
        16 => s16::borrows(ch),
        #[cfg(feature = "comp32")]
        17 => s17::borrows(ch),
        #[cfg(feature = "comp32")]
        18 => s18::borrows(ch),
        #[cfg(feature = "comp32")]
        19 => s19::borrows(ch),
        #[cfg(feature = "comp32")]
        20 => s20::borrows(ch),
        #[cfg(feature = "comp32")]
        21 => s21::borrows(ch),
        #[cfg(feature = "comp32")]
        22 => s22::borrows(ch),
        #[cfg(feature = "comp32")]
        23 => s23::borrows(ch),
        #[cfg(feature = "comp32")]
        24 => s24::borrows(ch),
        #[cfg(feature = "comp32")]
        25 => s25::borrows(ch),
        #[cfg(feature = "comp32")]
        26 => s26::borrows(ch),
        #[cfg(feature = "comp32")]
        27 => s27::borrows(ch),
        #[cfg(feature = "comp32")]
        28 => s28::borrows(ch),
        #[cfg(feature = "comp32")]
        29 => s29::borrows(ch),
        #[cfg(feature = "comp32")]
        30 => s30::borrows(ch),
        #[cfg(feature = "comp32")]
        31 => s31::borrows(ch),
        #[cfg(feature = "comp32")]
        32 => s32::borrows(ch),
        _ => unreachable!(),
    }
}
