include!(concat!(env!("OUT_DIR"), "/src/main.rs"));
