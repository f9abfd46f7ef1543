mod codec;
mod exec;
mod reader;
use serde_json::Value;
use solana_program_test::ProgramTest;
use std::io::{BufRead, BufWriter, Write};

/// replay IN.ndjson OUT.ndjson [threads]: each input line is a behaviour (an array of steps);
/// each output line is the recorded trace of that behaviour (an array of records).
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "--universe").unwrap_or(false) {
        // names, derivations and sizes the specification needs to know
        let nm = codec::Names::new();
        let mut m = serde_json::Map::new();
        for (n, (p, sd)) in &nm.pda {
            m.insert(n.clone(), serde_json::json!({"prog": p, "seeds": codec::seeds_json(sd)}));
        }
        println!("{}", serde_json::to_string_pretty(&Value::Object(m)).unwrap());
        return;
    }
    let threads: usize = a.get(3).map(|x| x.parse().unwrap()).unwrap_or(8);
    solana_logger::setup_with("off");
    // installs the syscall stubs native programs need
    let rt = tokio::runtime::Runtime::new().unwrap();
    rt.block_on(async {
        let _ = ProgramTest::default().start_with_context().await;
    });
    solana_logger::setup_with("off");
    if std::env::var("VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|i| {
            let m = i.payload().downcast_ref::<String>().cloned().unwrap_or_default();
            if m.contains("cannot sign") || m.contains("expected") || m.contains("missing") {
                eprintln!("{i}");
            }
        }));
    }
    let f = std::io::BufReader::new(std::fs::File::open(&a[1]).expect("input"));
    let behaviours: Vec<Vec<Value>> = f
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).expect("behaviour json"))
        .collect();
    let n = behaviours.len();
    let bs = std::sync::Arc::new(behaviours);
    let hs: Vec<_> = (0..threads.min(n.max(1)))
        .map(|t| {
            let bs = bs.clone();
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let mut w = exec::World::new();
                let mut outs = vec![];
                let mut txs = 0;
                for i in (t..bs.len()).step_by(threads) {
                    w.out.clear();
                    w.txs = 0;
                    w.run(&bs[i]);
                    txs += w.txs;
                    outs.push((i, serde_json::to_string(&w.out).unwrap()));
                }
                (outs, txs)
            }).unwrap()
        })
        .collect();
    let mut all = vec![];
    let mut txs = 0;
    for h in hs {
        match h.join() {
            Ok((o, t)) => {
                all.extend(o);
                txs += t;
            }
            Err(_) => {
                eprintln!("replay thread failed");
                std::process::exit(2);
            }
        }
    }
    all.sort();
    let mut o = BufWriter::new(std::fs::File::create(&a[2]).expect("output"));
    for (_, l) in all {
        writeln!(o, "{l}").unwrap();
    }
    o.flush().unwrap();
    eprintln!("replayed {n} behaviours, {txs} transactions");
    std::process::exit(0);
}
