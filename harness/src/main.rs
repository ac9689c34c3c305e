mod api;
mod conv;
mod craft;
mod crypt;
mod exec;
mod keys;
mod open;
mod world;
use serde_json::{json, Value};
use std::{
    fs::File,
    io::{BufRead, BufReader, BufWriter, Write},
    sync::{atomic::Ordering, Arc, Mutex},
};

/// vharness SCENARIOS.ndjson TRACE.ndjson MARK
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let out = Arc::new(Mutex::new(BufWriter::new(File::create(&a[2]).expect("harness: output"))));
    let mark = a[3].clone();
    let o2 = out.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let s = exec::OP_START.load(Ordering::SeqCst);
        if s != 0 && exec::now() > s + 20000 {
            let mut o = o2.lock().unwrap();
            writeln!(o, "{}", json!({"ev":"hang","sc":"?","i":0,"st":"hang","kind":"~","tag":"~","lex":{"~":{"d":"~","f":false,"i":false}}})).unwrap();
            o.flush().unwrap();
            std::process::exit(0);
        }
    });
    // a big stack: deep JSON is refused by the parser, but nested envelopes open recursively
    let r = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                for line in BufReader::new(File::open(&a[1]).expect("harness: input")).lines() {
                    let sc: Value = serde_json::from_str(&line.unwrap()).unwrap();
                    std::fs::write(&mark, sc["id"].as_str().unwrap_or("?")).unwrap();
                    let mut ctx = exec::Ctx::new();
                    let w = ctx.world.borrow_mut().apply(&sc["world"]);
                    let mut i = 0;
                    let mut emit = |mut e: Value| {
                        e["sc"] = sc["id"].clone();
                        e["i"] = json!(i);
                        i += 1;
                        let mut o = out.lock().unwrap();
                        writeln!(o, "{}", e).unwrap();
                    };
                    emit(ctx.fin(json!({"ev":"world","world":w}), &sc));
                    for op in sc["ops"].as_array().unwrap() {
                        ctx.run(op, &mut emit);
                    }
                }
                out.lock().unwrap().flush().unwrap();
            }));
            if let Err(e) = r {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                eprintln!("harness failure: {}", m);
                std::process::exit(3);
            }
            std::fs::write(&mark, "done").unwrap();
        })
        .unwrap()
        .join();
    if r.is_err() {
        std::process::exit(3);
    }
}
