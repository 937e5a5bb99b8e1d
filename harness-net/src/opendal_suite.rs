//! OpendalStream over OpenDAL's memory service.
use crate::util::*;
use futures_util::StreamExt;
use opendal::{Operator, services::Memory};
use std::num::NonZeroUsize;
use stream_download::source::SourceStream;
use stream_download_opendal::{OpendalStream, OpendalStreamParams};

const P: &[&str] = &["C19"];
pub fn opendal(seed: u64) -> CaseResult {
    let mut g = Rng::new(seed);
    let mut t = Trace::default();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let op = Operator::new(Memory::default()).unwrap();
        let n = match g.below(4) {
            0 => 0,
            1 => g.below(20),
            2 => 4096 * g.below(4) + g.below(3),
            _ => g.below(30_000),
        };
        let data = res_vec(0, n);
        let ctype = g.chance(50).then_some("audio/mpeg");
        // one piece, or several (reads then come up short at their borders)
        let mut rest = bytes::Bytes::from(data.clone());
        let mut pieces = vec![];
        let split = g.chance(50);
        while split && rest.len() > 1 && pieces.len() < 8 {
            pieces.push(rest.split_to(g.range(1, rest.len() as u64) as usize));
        }
        pieces.push(rest);
        t.add(format!("stored in {} pieces", pieces.len()));
        let mut w = op.write_with("some/key", opendal::Buffer::from(pieces));
        if let Some(c) = ctype {
            w = w.content_type(c);
        }
        w.await.unwrap();
        let chunk = g.chance(70).then(|| if g.chance(15) { g.range(1, 12) } else { g.range(1, 9000) } as usize);
        t.add(format!("object of {n} bytes, content type {ctype:?}, chunk size {chunk:?}"));
        if g.chance(5) {
            if OpendalStream::new(OpendalStreamParams::new(op, "missing")).await.is_ok() {
                return t.fail(P, "a missing object became a stream");
            }
            return Ok(Case { desc: t.0, nontrivial: false });
        }
        let mut p = OpendalStreamParams::new(op, "some/key");
        if let Some(c) = chunk {
            p = p.chunk_size(NonZeroUsize::new(c).unwrap());
        }
        let mut s = match OpendalStream::create(p).await {
            Ok(s) => s,
            Err(e) => return t.fail(P, format!("creation failed: {e}")),
        };
        let len = (n > 0).then_some(n);
        if s.content_length() != len {
            return t.fail(P, format!("content length {:?} instead of {len:?}", s.content_length()));
        }
        if s.content_type() != ctype {
            return t.fail(P, format!("content type {:?} instead of {ctype:?}", s.content_type()));
        }
        if !s.supports_seek() {
            return t.fail(P, "seeking is not supported");
        }
        let (mut pos, mut end) = (0, n);
        for step in 0..g.range(1, 6) {
            if step > 0 {
                // the reader may also ask for nothing at the very end
                let a = if g.chance(10) { n } else { g.below(n.max(1)) };
                let e = if a == n { Some(n) } else { g.chance(50).then(|| if g.chance(15) { a } else { g.range(a + 1, n) }) };
                let r;
                if a == n || g.chance(60) {
                    t.add(format!("seek_range({a}, {e:?})"));
                    r = s.seek_range(a, e).await;
                    end = e.unwrap_or(n);
                } else {
                    t.add(format!("reconnect({a})"));
                    r = s.reconnect(a).await;
                    end = n;
                }
                if let Err(e) = r {
                    return t.fail(P, format!("failed: {e}"));
                }
                pos = a;
            }
            let most = if g.chance(40) { u64::MAX } else { g.below(6) };
            let mut k = 0;
            let impatient = g.chance(30);
            while k < most {
                k += 1;
                let item = if impatient {
                    // as the download loop does: a seek may come while the next item is not there yet
                    match futures_util::poll!(s.next()) {
                        std::task::Poll::Ready(i) => i,
                        std::task::Poll::Pending if g.chance(30) => break,
                        std::task::Poll::Pending => {
                            tokio::task::yield_now().await;
                            continue;
                        }
                    }
                } else {
                    s.next().await
                };
                match item {
                    None => {
                        if pos != end {
                            return t.fail(P, format!("the stream ends at {pos} instead of {end}"));
                        }
                        break;
                    }
                    Some(Err(e)) => return t.fail(P, format!("reading failed: {e}")),
                    Some(Ok(b)) => {
                        let q = pos + b.len() as u64;
                        // the buffer is never smaller than what was asked for; BytesMut may round up
                        if b.is_empty() || q > end || b[..] != data[pos as usize..q as usize] {
                            return t.fail(P, format!("an item of {} bytes at {pos} is not the object's content", b.len()));
                        }
                        pos = q;
                    }
                }
            }
            t.add(format!("read {most} items to {pos}"));
        }
        Ok(Case { desc: t.0, nontrivial: n > 0 })
    })
}
