//! Reads cases, writes records, watches for hangs.
use crate::json::{parse, J};
use crate::run;
use std::fs::{File, OpenOptions};
use std::io::{BufRead, BufReader, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn drive(case: fn(&J, &run::Progress) -> J) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 4 {
        eprintln!("usage: harness CASES RECORDS PROGRESS");
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{}", info);
        if m.contains("harness:") || m.contains("harness/src") {
            eprintln!("{}", m);
        }
    }));
    let limit_ms: u64 = std::env::var("HARNESS_LIMIT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(10_000);
    let out = Arc::new(Mutex::new(OpenOptions::new().create(true).append(true).open(&args[2]).unwrap()));
    let now = Arc::new(run::Progress::new(&args[3]));
    let begun = Instant::now();
    let started = Arc::new(AtomicU64::new(0));
    now.attach(begun, started.clone());

    // watchdog: a stage that takes longer than the limit is a hang
    {
        let now = now.clone();
        let out = out.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(50));
            let s = started.load(Ordering::SeqCst);
            if s != 0 && begun.elapsed().as_millis() as u64 > s + limit_ms {
                let (id, stage, k) = now.get();
                let rec = obj! {"id" => J::Int(id), "fatal" => J::s("hang"), "stage" => J::Str(stage), "run" => J::Int(k)};
                let mut f = out.lock().unwrap();
                let _ = f.write_all((rec.text() + "\n").as_bytes());
                let _ = f.flush();
                std::process::exit(3);
            }
        });
    }

    let cases = args[1].clone();
    let child = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            for line in BufReader::new(File::open(cases).unwrap()).lines() {
                let line = line.unwrap();
                if line.trim().is_empty() {
                    continue;
                }
                let c = parse(&line);
                // a case may be given a small stack of its own
                let rec = match c.get_int("stack", 0) {
                    0 => case(&c, &now),
                    n => {
                        let now = now.clone();
                        let t = std::thread::Builder::new().stack_size(n as usize).spawn(move || case(&c, &now).text());
                        parse(&t.unwrap().join().expect("harness: case"))
                    }
                };
                let mut f = out.lock().unwrap();
                f.write_all((rec.text() + "\n").as_bytes()).unwrap();
                f.flush().unwrap();
            }
        })
        .unwrap();
    if child.join().is_err() {
        std::process::exit(4);
    }
}
