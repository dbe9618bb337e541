//! Harnesses: the scenarios whose symbolic execution decides the properties.
#![allow(clippy::all)]
#[macro_use]
pub mod api;
pub mod db;
pub mod world;
pub mod basic;
pub mod compact;
pub mod conc;
pub mod codec;
pub mod sec;
pub mod more;
pub mod extra;
pub mod bulk;
pub mod peers;

macro_rules! harnesses {
    ($($name:ident = $f:path;)*) => {
        $(#[no_mangle] pub extern "C" fn $name(a: u64, b: u64, c: u64, d: u64) { $f(a, b, c, d) })*
        pub const TABLE: &[(&str, fn(u64, u64, u64, u64))] = &[$((stringify!($name), $f)),*];
    };
}
harnesses! {
    h_hist = basic::hist;
    h_batch = basic::batch;
    h_long = basic::long;
    h_value = basic::value;
    h_values = basic::values;
    h_keyword = basic::keyword;
    h_graph = basic::graph;
    h_deep = basic::deep;
    h_interrupt = basic::interrupt;
    h_frame = basic::frame;
    h_empty = basic::empty;
    h_keep = compact::keep;
    h_partial = compact::partial;
    h_filter = compact::filter;
    h_minimal = compact::minimal;
    h_renew = compact::renew;
    h_fail = compact::fail;
    h_collide = compact::collide;
    h_wrong_key = compact::wrong_key;
    h_rate = compact::rate;
    h_refused = compact::refused;
    h_mixed = compact::mixed;
    h_writers = conc::writers;
    h_batches = conc::batches;
    h_reader = conc::reader;
    h_fault = conc::fault;
    h_dead = conc::dead;
    h_starve = conc::starve;
    h_overtaken = conc::overtaken;
    h_token = codec::token;
    h_evalue = codec::evalue;
    h_cipher = codec::cipher;
    h_ivalue = codec::ivalue;
    h_memdb = codec::memdb;
    h_ser = codec::ser;
    h_old = codec::old;
    h_garbage = codec::garbage;
    h_written = codec::written;
    h_readback = codec::readback;
    h_isolate = sec::isolate;
    h_opaque = sec::opaque;
    h_nonces = sec::nonces;
    h_tamper = sec::tamper;
    h_derive = sec::derive;
    h_wipe = sec::wipe;
    h_many = more::many;
    h_big = more::big;
    h_pack = more::pack;
    h_domains = more::domains;
    h_levels = more::levels;
    h_pure = more::pure;
    h_touch = more::touch;
    h_edx = more::edx;
    h_edx_fault = more::edx_fault;
    h_conv = more::conv;
    h_text = more::text;
    h_shape = more::shape;
    h_search_fault = more::search_fault;
    h_memdb_many = extra::memdb_many;
    h_edx_many = extra::edx_many;
    h_drawn = extra::drawn;
    h_keys = extra::keys;
    h_sifted = extra::sifted;
    h_restore = extra::restore;
    h_extreme = extra::extreme;
    h_bulk_renew = bulk::renew;
    h_bulk_fail = bulk::fail;
    h_bulk_collide = bulk::collide;
    h_bulk_fault = bulk::fault;
    h_bulk_frame = bulk::frame;
    h_bulk_tamper = bulk::tamper;
    h_bulk_isolate = bulk::isolate;
    h_bulk_nonces = bulk::nonces;
    h_bulk_wide = bulk::wide;
    h_bulk_search_fault = bulk::search_fault;
    h_bulk_pure = bulk::pure;
    h_bulk_sifted = bulk::sifted;
    h_bulk_restore = bulk::restore;
    h_bulk_crowd = bulk::crowd;
    h_bulk_reader = bulk::reader;
    h_bulk_partial = bulk::partial;
    h_bulk_conv = bulk::conv;
    h_peers = peers::peers;
    h_contexts = peers::contexts;
    h_seeds = peers::seeds;
    h_alike = peers::alike;
    h_written_many = codec::written_many;
    h_readback_many = codec::readback_many;
}
