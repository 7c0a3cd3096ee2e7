// main BIN[,BIN2] TYPES TRACE[,TRACE2]: runs the monitor over a trace; then loads the second binary and runs it over the second trace
use r2u2_core::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let types: Vec<char> = a[2].chars().collect();
    let traces: Vec<&str> = a[3].split(',').collect();
    let bins: Vec<Vec<u8>> = a[1].split(',').map(|f| std::fs::read(f).unwrap()).collect();
    let mut mon = get_monitor(&bins[0]);
    for (k, t) in traces.iter().enumerate() {
        if k > 0 { update_binary_file(&bins[k], &mut mon); println!("--"); }
        for l in std::fs::read_to_string(t).unwrap().lines() {
            for (i, v) in l.split(',').enumerate() {
                match types[i] {
                    'b' => load_bool_signal(&mut mon, i, v == "1"),
                    'i' => load_int_signal(&mut mon, i, v.parse().unwrap()),
                    _ => load_float_signal(&mut mon, i, v.parse().unwrap()),
                }
            }
            let ok = monitor_step(&mut mon);
            for o in get_output_buffer(&mon).iter() { println!("{}:{},{}", o.spec_num, o.verdict.time, if o.verdict.truth { "T" } else { "F" }); }
            if !ok { println!("overflow"); }
        }
    }
}
