// the same program, linked with the program under test in its `unit_test_config` flavour
include!("main.rs");
