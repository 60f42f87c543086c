//! C19: the explorations of all other properties, reduced, in one program for every build configuration.
use mc::explore::{Scenario, Tier};

macro_rules! parts {
    ($($p:ident $file:literal),* $(,)?) => {
        $(
            #[path = $file]
            mod $p;
        )*
        fn all(tier: Tier) -> Vec<Scenario> {
            let mut out = Vec::new();
            $( out.extend($p::scenarios(tier)); )*
            // What costs most and depends least on how the crate was built.
            const COSTLY: &[&str] = &[
                "c10-twice", "c10-clones", "c10-three", "c10-one-0", "c10-one-2", "c11-pairs", "c11-deep-0", "c11-deep-1", "c11-deep-2",
                "c03-forge-generations", "c03-forge-0", "c03-forge-2", "c02-write-matrix", "c13-one-0", "c13-one-2", "c13-generations", "c03-forge-mixed",
            ];
            out.retain(|s| !tier.micro() || !COSTLY.contains(&s.name.as_str()));
            // The limits need an optimised build.
            out.retain(|s| !cfg!(debug_assertions) || s.name != "c12-limit");
            out.retain(|s| !cfg!(feature = "lean") || !s.name.contains("-shape-"));
            out
        }
    };
}

#[cfg_attr(not(feature = "lean"), path = "../props/shapes.rs")]
#[cfg_attr(feature = "lean", path = "../props/noshapes.rs")]
mod shapes;
parts!(
    c01 "../props/c01.rs", c02 "../props/c02.rs", c03 "../props/c03.rs", c04 "../props/c04.rs", c06 "../props/c06.rs",
    c07 "../props/c07.rs", c08 "../props/c08.rs", c09 "../props/c09.rs", c10 "../props/c10.rs", c11 "../props/c11.rs",
    c12 "../props/c12.rs", c13 "../props/c13.rs", c14 "../props/c14.rs", c17 "../props/c17.rs", c19 "../props/c19.rs",
);

fn main() {
    mc::explore::main(all);
}
