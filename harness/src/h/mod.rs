pub mod arith;
pub mod bits;
pub mod bristol;
pub mod bundled;
pub mod circ;
pub mod effects;
pub mod equality;
pub mod field;
pub mod history;
pub mod misc;
pub mod prog;
pub mod refs;
pub mod structure;
pub mod sym;
pub mod typed;

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        /// Entry points by name, for the native replay.
        pub fn entry(name: &str) -> Option<extern "C" fn()> {
            match name { $(stringify!($f) => Some($m::$f),)* _ => None }
        }
    };
}
entries!(
    arith::h_int_op,
    arith::h_int_const,
    arith::h_block,
    arith::h_int_cmp,
    arith::h_int_shift,
    arith::h_int_big,
    arith::h_int_alloc,
    bits::h_bits_op,
    bits::h_bits_alloc,
    bristol::h_export,
    bristol::h_export_first,
    bristol::h_roundtrip,
    bristol::h_import,
    bristol::h_import_large,
    bristol::h_malformed,
    bristol::h_malformed_reused,
    bundled::h_linear64,
    bundled::h_mult64,
    bundled::h_div64,
    bundled::h_aes,
    bundled::h_aes_reference,
    effects::h_no_effect,
    effects::h_export_same,
    equality::h_equal_same,
    equality::h_equal_pair,
    equality::h_equal_modules,
    equality::h_equal_registry,
    equality::h_equal_histories,
    equality::h_unknown,
    equality::h_dangling,
    equality::h_arity,
    equality::h_foreign,
    field::h_fp_linear,
    field::h_fp_mul,
    field::h_fp_mont,
    history::h_history,
    misc::h_bits_bytes,
    misc::h_hex_bytes,
    misc::h_hex_long,
    misc::h_hex_text,
    misc::h_ext_gcd,
    misc::h_ext_gcd_wide,
    misc::h_meta,
    misc::h_meta_call,
    misc::h_ids,
    misc::h_print,
    structure::h_eval,
    structure::h_eval_grow,
    structure::h_module,
    structure::h_module_shared,
    structure::h_counts_doubling,
    structure::h_counts,
    structure::h_counts_steps,
    structure::h_idents,
    typed::h_typed,
);
