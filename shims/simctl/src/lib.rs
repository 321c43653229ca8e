//! Control channel of the stand-ins. One JSON object per line on stdin:
//!   {"t":"msg", ...}  a message of the geyser stream, answered when it has been processed
//!   {"t":"end"}       the geyser stream ends
//!   {"t":"rpc","method":..,"params":[..]}  a call of the RPC server, answered with its result
//! Every answer is one line on stdout that starts with "@@".
use serde_json::Value;
use std::io::{BufRead, Write};
use std::sync::{Mutex, Once, OnceLock};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};

type Pair = (UnboundedSender<Value>, Mutex<Option<UnboundedReceiver<Value>>>);

fn chan(which: usize) -> &'static Pair {
    static C: [OnceLock<Pair>; 2] = [OnceLock::new(), OnceLock::new()];
    C[which].get_or_init(|| {
        let (a, b) = unbounded_channel();
        (a, Mutex::new(Some(b)))
    })
}

fn start() {
    static S: Once = Once::new();
    S.call_once(|| {
        chan(0);
        chan(1);
        std::thread::spawn(|| {
            for line in std::io::stdin().lock().lines() {
                let Ok(line) = line else { break };
                let Ok(v) = serde_json::from_str::<Value>(&line) else { continue };
                let which = usize::from(v["t"] == "rpc");
                let _ = chan(which).0.send(v);
            }
            // the driver is gone
            std::process::exit(0);
        });
    });
}

/// the messages of the geyser stream
pub fn stream() -> UnboundedReceiver<Value> {
    start();
    chan(0).1.lock().unwrap().take().expect("one client only")
}

/// the calls of the RPC server
pub fn calls() -> UnboundedReceiver<Value> {
    start();
    chan(1).1.lock().unwrap().take().expect("one server only")
}

pub fn answer(v: &Value) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "@@{v}");
    let _ = o.flush();
}
