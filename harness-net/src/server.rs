//! A scripted HTTP/1.1 server on the loopback interface, one per process.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, LazyLock, Mutex};

#[derive(Clone, Default)]
pub struct Answer {
    pub status: u16,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    /// announce the length (otherwise the body ends with the connection)
    pub length: bool,
    /// close the connection without an answer
    pub drop: bool,
}
#[derive(Clone, Debug)]
pub struct Seen {
    pub method: String,
    pub range: Vec<String>,
}
#[derive(Default)]
pub struct Site {
    pub answers: Vec<Answer>,
    pub seen: Vec<Seen>,
}
pub struct Server {
    pub port: u16,
    pub sites: Arc<Mutex<HashMap<String, Site>>>,
}
pub static SERVER: LazyLock<Server> = LazyLock::new(|| {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let s = Server { port: l.local_addr().unwrap().port(), sites: Arc::default() };
    let sites = s.sites.clone();
    std::thread::spawn(move || {
        for c in l.incoming().flatten() {
            let sites = sites.clone();
            std::thread::spawn(move || {
                let _ = serve(c, &sites);
            });
        }
    });
    s
});
fn serve(c: TcpStream, sites: &Mutex<HashMap<String, Site>>) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    let mut w = c.try_clone()?;
    let mut r = BufReader::new(c);
    {
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let mut p = line.split_whitespace();
        let method = p.next().unwrap_or("").to_string();
        let path = p.next().unwrap_or("").trim_start_matches('/').to_string();
        let mut range = vec![];
        loop {
            let mut h = String::new();
            if r.read_line(&mut h)? == 0 {
                return Ok(());
            }
            let h = h.trim_end();
            if h.is_empty() {
                break;
            }
            if let Some((k, v)) = h.split_once(':') {
                if k.eq_ignore_ascii_case("range") {
                    range.push(v.trim().to_string());
                }
            }
        }
        let a = {
            let mut s = sites.lock().unwrap();
            let Some(site) = s.get_mut(&path) else { return Ok(()) };
            site.seen.push(Seen { method, range });
            if site.answers.len() > 1 { site.answers.remove(0) } else { site.answers[0].clone() }
        };
        if a.drop {
            return Ok(());
        }
        let mut o = format!("HTTP/1.1 {} X\r\n", a.status).into_bytes();
        for (k, v) in &a.headers {
            o.extend_from_slice(k.as_bytes());
            o.extend_from_slice(b": ");
            o.extend_from_slice(v);
            o.extend_from_slice(b"\r\n");
        }
        if a.length {
            o.extend_from_slice(format!("Content-Length: {}\r\n", a.body.len()).as_bytes());
        }
        o.extend_from_slice(b"Connection: close\r\n");
        o.extend_from_slice(b"\r\n");
        o.extend_from_slice(&a.body);
        w.write_all(&o)?;
        return Ok(());
    }
}
