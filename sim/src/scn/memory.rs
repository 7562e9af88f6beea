//! C17: a node with little memory receives bodies that declare a lot.
use super::body::*;
use crate::alloc;
use crate::engine::*;
use crate::exec;
use crate::io::*;
use http_types::{Body, Request, Response};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

const BASE: usize = 256 << 10;

/// Accounts only what the inner future itself asks for.
struct Metered<F>(F);
impl<F: Future + Unpin> Future for Metered<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let _on = alloc::resume();
        Pin::new(&mut self.0).poll(cx)
    }
}

/// A length nobody sending this little could mean.
fn gen_huge() -> u64 {
    fault("length_overdeclared");
    match weighted(&[6, 1, 1, 1, 1]) {
        0 => {
            let e = range(21, 63);
            (1 << e) + choose(1 << e)
        }
        1 => u64::MAX - choose(4),
        2 => i64::MAX as u64 - 2 + choose(4),
        3 => (1 << 32) + choose(3) - 1,
        _ => usize::MAX as u64 / 2 + choose(1 << 20),
    }
}
fn gen_len17(n: usize) -> Option<u64> {
    match weighted(&[6, 1, 1]) {
        0 => Some(gen_huge()),
        1 => None,
        _ => Some(n as u64),
    }
}

pub fn c17() -> Res {
    exec::configure();
    let c = *pick(&[Conv::Bytes, Conv::Text, Conv::Json, Conv::Form]);
    let per = match c {
        Conv::Bytes | Conv::Text => 16,
        Conv::Form => 256,
        Conv::Json => 512,
    };
    // either large requests fail, or they are let through and counted
    alloc::prepare(BASE, per, !chance(1, 8));
    let parts = 1 + weighted(&[5, 2, 1]);
    let mut content = gen_content(c);
    if c == Conv::Text && chance(1, 12) {
        content = content.repeat(range(1, 20) as usize);
    }
    // (so that every length of `gen_huge` is far beyond it)
    content.truncate(1 << 20);
    let n = content.len();
    let mut faults: Vec<SrcFault> = Vec::new();
    let mut stats: Vec<Arc<Mutex<SrcStats>>> = Vec::new();
    // The content arrives from one source or from several, chained.
    let mut cuts: Vec<usize> = (1..parts).map(|_| choose(n as u64 + 1) as usize).collect();
    cuts.push(0);
    cuts.push(n);
    cuts.sort_unstable();
    let mut body: Option<Body> = None;
    let fail = chance(1, 8);
    for (i, w) in cuts.windows(2).enumerate() {
        let data = content[w[0]..w[1]].to_vec();
        let l = data.len();
        let declared = gen_len17(l);
        let mut b = if chance(1, 8) {
            // (memory that is there already is received)
            alloc::received(l);
            in_memory(&data)
        } else {
            let mut fs = vec![];
            if fail && chance(1, 2) {
                let f = SrcFault::new(choose(l as u64 + 1) as usize, *pick(ERR_KINDS), i as u32 + 1, chance(1, 2));
                fs.push(f);
                faults.push(f);
            }
            let src = SimReader::new(Arc::new(data), Behave::draw(), fs);
            stats.push(src.stats.clone());
            Body::from_reader(src, declared)
        };
        for _ in 0..weighted(&[6, 2, 1]) {
            b = if chance(1, 2) { Body::from_reader(b, gen_len17(l)) } else { carry(b).into_body() };
        }
        ev("part", l as u64, b.len().unwrap_or(u64::MAX));
        body = Some(match body {
            None => b,
            Some(a) => a.chain(b),
        });
    }
    let mut body = body.unwrap();
    if chance(1, 4) {
        body = Body::from_reader(body, gen_len17(n));
    }
    let mut h = carry(body);
    if chance(1, 6) {
        // through the other crate's types and back
        h = match h {
            Holder::Q(q) => {
                let q: http::Request<Body> = q.into();
                match Request::try_from(q) {
                    Ok(q) => Holder::Q(q),
                    Err(e) => return viol("refused", format!("crossing back failed: {e}")),
                }
            }
            Holder::R(r) => {
                let r: http::Response<Body> = r.into();
                match Response::try_from(r) {
                    Ok(r) => Holder::R(r),
                    Err(e) => return viol("refused", format!("crossing back failed: {e}")),
                }
            }
            b => b,
        };
    }
    let declared = h.len();
    note(|| format!("{c:?} of {n} bytes in {} parts, {} declares {declared:?}", cuts.len() - 1, h.kind()));
    competitor();
    exec::run_root(async move {
        let mut h = Some(h);
        let r = Metered(Box::pin(convert(&mut h, c))).await;
        let a = alloc::look();
        ev("memory", (a.peak.max(0) as u64) >> 12, a.largest as u64 >> 12);
        note(|| format!("{c:?} -> {}; peak {} largest {} received {}", match &r { Ok(v) => v.show(), Err(e) => format!("error {} {}", u16::from(e.status()), e) }, a.peak, a.largest, a.received));
        check!(a.failed == 0, "memory-by-declaration", "a {c:?} conversion of a body declaring {declared:?} asked for {} bytes when it had received {} (peak {}, allowed {})", a.over, a.received, a.peak, a.limit);
        if declared.map(|l| l > (1 << 21)).unwrap_or(false) {
            probe("declared_far_more");
        }
        match (&r, reference(c, &content)) {
            (Ok(v), Some(w)) => {
                check!(same(v, &w), "wrong-value", "{c:?} conversion returned {}, expected {}", v.show(), w.show());
                probe("converted");
            }
            (Ok(v), None) => return viol("invalid-accepted", format!("{c:?} conversion of invalid content returned {}", v.show())),
            (Err(e), w) => {
                let s = u16::from(e.status());
                if e.downcast_ref::<io::Error>().map(|x| faults.iter().any(|f| err_is(x, f.kind, f.id))).unwrap_or(false) {
                    probe("source_failed");
                } else if let Some(w) = w {
                    // The sender's claim may be refused, but only as the sender's fault.
                    check!((400..500).contains(&s) && declared.map(|l| l > (1 << 21)).unwrap_or(false), "spurious-error", "{c:?} conversion failed with {s} {e:?}, expected {}", w.show());
                    probe("declaration_refused");
                } else {
                    check!((400..500).contains(&s), "wrong-status", "{c:?} conversion of invalid content gave status {s}");
                    probe("invalid_rejected");
                }
            }
        }
        drop(h);
        for s in &stats {
            check!(s.lock().unwrap().dropped, "leak", "a source outlives the message it belonged to");
        }
        Ok(())
    })
}
