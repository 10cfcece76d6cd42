//! The modules of /repo/src/lib.rs that do not use rulinalg, compiled in place
//! and under the same module paths.  No code of the project is copied here.
#![allow(missing_docs)]
extern crate rand;

pub mod learning {
    pub mod toolkit {
        #[path = "/repo/src/learning/toolkit/activ_fn.rs"]
        pub mod activ_fn;
        #[path = "/repo/src/learning/toolkit/rand_utils.rs"]
        pub mod rand_utils;
    }
}
pub mod stats {
    #[path = "/repo/src/stats/dist/mod.rs"]
    pub mod dist;
}
