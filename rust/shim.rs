// C interface to the real r2u2_core crate
#![cfg_attr(not(feature = "std"), no_std)]
use core::mem::MaybeUninit;
use core::ptr::addr_of_mut;
use r2u2_core::*;
static mut M: MaybeUninit<Monitor> = MaybeUninit::uninit();
fn m() -> &'static mut Monitor { unsafe { (*addr_of_mut!(M)).assume_init_mut() } }
#[cfg(feature = "std")]
fn hook() { std::panic::set_hook(Box::new(|i| { println!("{}", i); println!("VS-FAIL panic"); })); }
#[cfg(not(feature = "std"))]
fn hook() {}
#[no_mangle] pub unsafe extern "C" fn rs_init(p: *const u8, n: usize) { hook(); (*addr_of_mut!(M)).write(get_monitor(core::slice::from_raw_parts(p, n))); }
#[no_mangle] pub unsafe extern "C" fn rs_update(p: *const u8, n: usize) { update_binary_file(core::slice::from_raw_parts(p, n), m()); }
#[no_mangle] pub extern "C" fn rs_bool(i: usize, v: u8) { load_bool_signal(m(), i, v != 0) }
#[no_mangle] pub extern "C" fn rs_int(i: usize, v: i32) { load_int_signal(m(), i, v) }
#[no_mangle] pub extern "C" fn rs_float(i: usize, v: f64) { load_float_signal(m(), i, v) }
#[no_mangle] pub extern "C" fn rs_step() -> u8 { monitor_step(m()) as u8 }
#[no_mangle] pub extern "C" fn rs_count() -> usize { get_output_buffer(m()).len() }
#[no_mangle] pub extern "C" fn rs_num(i: usize) -> u32 { get_output_buffer(m())[i].spec_num }
#[no_mangle] pub extern "C" fn rs_time(i: usize) -> u32 { get_output_buffer(m())[i].verdict.time }
#[no_mangle] pub extern "C" fn rs_truth(i: usize) -> u8 { get_output_buffer(m())[i].verdict.truth as u8 }
#[no_mangle] pub unsafe extern "C" fn rs_bool_array(i: usize, p: *const bool, n: usize) { load_bool_array(m(), i, core::slice::from_raw_parts(p, n)) }
#[no_mangle] pub unsafe extern "C" fn rs_int_array(i: usize, p: *const i32, n: usize) { load_int_array(m(), i, core::slice::from_raw_parts(p, n)) }
#[no_mangle] pub unsafe extern "C" fn rs_float_array(i: usize, p: *const f64, n: usize) { load_float_array(m(), i, core::slice::from_raw_parts(p, n)) }
