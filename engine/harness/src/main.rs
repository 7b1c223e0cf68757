mod sx;
mod h_ext;
mod h_fri;
mod h_fft;
mod gl_rc;
mod h_hash;
mod h_merkle;
mod h_trans;
use sx::H;

fn run(prop: &str, h: &mut H) {
    match prop {
        "P02" => h_ext::p02(h),
        "P04" => h_fft::p04(h),
        "P05" => h_hash::p05(h),
        "P06" => h_hash::p06(h),
        "P07" => h_merkle::p07(h),
        "P08" => h_merkle::p08(h),
        "P09" => h_merkle::p09(h),
        "P12" => h_fri::p12(h),
        "P13" => h_fri::p13(h),
        "P10" => h_trans::p10(h),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(3);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: harness PROP OUT [REQ]");
        std::process::exit(3);
    }
    if std::env::var("RAYON_NUM_THREADS").is_err() {
        std::env::set_var("RAYON_NUM_THREADS", "1");
    }
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let filter = std::env::var("SX_FILTER").ok();
    let shard = std::env::var("SX_SHARD").ok().and_then(|s| {
        let (a, b) = s.split_once('/')?;
        Some((a.parse().ok()?, b.parse().ok()?))
    }).unwrap_or((0, 1));
    let (prop, out) = (a[1].clone(), a[2].clone());
    let req = a.get(3).cloned();
    // deep recursion of term evaluation
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            #[cfg(feature = "sym")]
            {
                let _ = req;
                let mut h = H { thorough, filter, shard, count: 0 };
                run(&prop, &mut h);
                std::fs::write(&out, serde_json::to_string_pretty(&symcore::ctx::report_json()).unwrap()).unwrap();
            }
            #[cfg(feature = "real")]
            {
                let reqs: Vec<serde_json::Value> =
                    serde_json::from_str(&std::fs::read_to_string(req.expect("REQ")).unwrap()).unwrap();
                let mut h = H { thorough, filter, shard, count: 0, reqs, results: vec![] };
                run(&prop, &mut h);
                std::fs::write(&out, serde_json::to_string_pretty(&h.results).unwrap()).unwrap();
            }
        })
        .unwrap()
        .join()
        .unwrap();
}
