//! Talking to the web server: processes, HTTP and HTML.

use crate::{
	props::{cli::bin, parse::Tmp},
	run::*,
};
use std::{
	io::{Read, Write},
	net::TcpStream,
	path::Path,
	process::{Child, Command, Stdio},
	sync::{
		atomic::{AtomicU64, Ordering},
		Arc, Mutex,
	},
	time::{Duration, Instant},
};

// -------------------------------------------------------------------------------------- Server

pub struct Server {
	tls: bool,
	child: Child,
	pub host: String,
	pub port: u16,
	log: Arc<Mutex<String>>,
}

pub enum Started {
	Up(Server),
	/// It ended by itself.
	Ended { code: Option<i32>, log: String },
}

/// Starts the server with these arguments and an address of its own.
pub fn start(cwd: &Path, args: &[String]) -> Result<Started, Fail> {
	start_with(cwd, args, &[])
}

/// A clock that can be moved on for one server.
pub struct Clock {
	file: std::path::PathBuf,
	pub ahead: i64,
}

impl Clock {
	pub fn new(tmp: &Tmp) -> Result<Clock, Fail> {
		let c = Clock { file: tmp.0.join("clock"), ahead: 0 };
		harness(std::fs::write(&c.file, [0u8; 16]), "clock file")?;
		Ok(c)
	}
	/// What the server needs to use it.
	pub fn env(&self) -> Vec<(String, String)> {
		let lib = Path::new(&std::env::var("VERIF_ROOT").unwrap_or("/verif".into())).join(".build/clock.so");
		vec![("LD_PRELOAD".into(), lib.display().to_string()), ("VERIF_CLOCK".into(), self.file.display().to_string())]
	}
	pub fn in_use(&self) -> Check {
		let b = harness(std::fs::read(&self.file), "clock file")?;
		if b.get(8) == Some(&1) {
			return Ok(())
		}
		Err(Fail::Harness("the server does not use the clock".into()))
	}
	pub fn advance(&mut self, secs: u32) -> Check {
		use std::os::unix::fs::FileExt;
		self.ahead += secs as i64;
		let f = harness(std::fs::OpenOptions::new().write(true).open(&self.file), "clock file")?;
		harness(f.write_all_at(&self.ahead.to_le_bytes(), 0), "clock file")?;
		// The server looks at the clock twice a second.
		std::thread::sleep(Duration::from_millis(700));
		Ok(())
	}
}

pub fn start_with(cwd: &Path, args: &[String], env: &[(String, String)]) -> Result<Started, Fail> {
	static N: AtomicU64 = AtomicU64::new(0);
	for _ in 0..20 {
		let n = N.fetch_add(1, Ordering::Relaxed);
		let pid = std::process::id() as u64;
		// Every address of 127/8 is a loopback one.
		let host = format!("127.{}.{}.{}", 1 + (pid / 250) % 250, 1 + pid % 250, 1 + n % 250);
		let port = 18000 + (n / 250 % 2000) as u16;
		let mut cmd = Command::new(bin("subweight-web"));
		cmd.args(args).args(["--endpoint", &host, "--port", &port.to_string()]).current_dir(cwd);
		cmd.env_remove("RUST_LOG").env_remove("RUST_BACKTRACE");
		cmd.envs(env.iter().cloned());
		cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
		let mut child = harness(cmd.spawn(), "spawn of the server")?;
		let log = Arc::new(Mutex::new(String::new()));
		let mut err = child.stderr.take().unwrap();
		let l = log.clone();
		let reader = std::thread::spawn(move || {
			let mut buf = [0u8; 4096];
			while let Ok(n) = err.read(&mut buf) {
				if n == 0 {
					break
				}
				l.lock().unwrap().push_str(&String::from_utf8_lossy(&buf[..n]));
			}
		});
		let end = Instant::now() + Duration::from_secs(60);
		let mut nap = 2;
		let mut s = Server { child, host, port, log, tls: args.iter().any(|a| a.starts_with("--cert")) };
		loop {
			if let Some(st) = harness(s.child.try_wait(), "wait for the server")? {
				let _ = reader.join();
				let log = s.log.lock().unwrap().clone();
				if log.contains("Address already in use") || log.contains("AddrInUse") {
					break
				}
				return Ok(Started::Ended { code: st.code(), log })
			}
			// The line comes after the socket is bound, so it is not somebody else's.
			let bound = s.log.lock().unwrap().contains("starting service");
			if (bound || nap > 100) && TcpStream::connect((s.host.as_str(), s.port)).is_ok() && harness(s.child.try_wait(), "wait for the server")?.is_none() {
				return Ok(Started::Up(s))
			}
			if Instant::now() > end {
				let log = s.log.lock().unwrap().clone();
				return Err(Fail::Harness(format!("the server neither ends nor listens: {log}")))
			}
			std::thread::sleep(Duration::from_millis(nap));
			nap = (nap * 3 / 2).min(50).max(nap + 1);
		}
	}
	Err(Fail::Harness("no address for the server".into()))
}

impl Drop for Server {
	fn drop(&mut self) {
		let _ = self.child.kill();
		let _ = self.child.wait();
	}
}

#[derive(Debug, Clone, PartialEq)]
pub struct Resp {
	pub status: u16,
	pub headers: Vec<(String, String)>,
	pub body: String,
}

impl Resp {
	pub fn header(&self, name: &str) -> Option<&str> {
		self.headers.iter().find(|h| h.0.eq_ignore_ascii_case(name)).map(|h| h.1.as_str())
	}
	pub fn is_html(&self) -> bool {
		// Without a type, browsers guess.
		let t = self.header("content-type").unwrap_or("");
		!self.body.is_empty() && (t.is_empty() || t.contains("html") || t.contains("xml") && !t.contains("svg"))
	}
}

impl Resp {
	/// The type under which a page has to be sent: another character set could make markup of plain text.
	pub fn page_type(&self) -> Check {
		let t = self.header("content-type").unwrap_or("").to_ascii_lowercase().replace(' ', "");
		if t == "text/html;charset=utf-8" {
			return Ok(())
		}
		Err(Fail::Violation(format!("a page is sent as {t:?}")))
	}
}

impl Server {
	pub fn log(&self) -> String {
		self.log.lock().unwrap().clone()
	}
	/// Every request has to be answered.
	pub fn get(&self, target: &str) -> Result<Resp, Fail> {
		if self.tls {
			return self.answered(get_tls(&self.host, self.port, target))
		}
		self.get_on(self.connect()?, target)
	}
	pub fn connect(&self) -> Result<TcpStream, Fail> {
		harness(TcpStream::connect((&self.host[..], self.port)), "connect")
	}
	/// Sends a request and closes the connection.
	pub fn leave(&self, mut s: TcpStream, target: &str) -> Result<(), Fail> {
		let req = format!("GET {target} HTTP/1.1\r\nHost: {}\r\n\r\n", self.host);
		harness(s.write_all(req.as_bytes()), "send")
	}
	/// Sends a request over a connection that is already there.
	pub fn get_on(&self, s: TcpStream, target: &str) -> Result<Resp, Fail> {
		self.answered(get_on(s, &self.host, target))
	}
	fn answered(&self, r: Result<Resp, Fail>) -> Result<Resp, Fail> {
		r.map_err(|e| match e {
			Fail::Violation(m) => {
				let log = self.log();
				let panic = log.lines().filter(|l| l.contains("panicked")).last().unwrap_or("").to_string();
				Fail::Violation(format!("{m} {panic}"))
			},
			e => e,
		})
	}
}

pub fn get(host: &str, port: u16, target: &str) -> Result<Resp, Fail> {
	get_on(harness(TcpStream::connect((host, port)), "connect")?, host, target)
}

fn get_on(mut s: TcpStream, host: &str, target: &str) -> Result<Resp, Fail> {
	harness(s.set_read_timeout(Some(Duration::from_secs(120))), "timeout")?;
	let req = format!("GET {target} HTTP/1.1\r\nHost: {host}\r\nConnection: close\r\n\r\n");
	harness(s.write_all(req.as_bytes()), "send")?;
	let mut raw = vec![];
	if let Err(e) = s.read_to_end(&mut raw) {
		return Err(Fail::Violation(format!("GET {target}: no answer: {e}")))
	}
	parse(target, raw)
}

/// The same over TLS.
fn get_tls(host: &str, port: u16, target: &str) -> Result<Resp, Fail> {
	let mut cmd = Command::new("openssl");
	cmd.args(["s_client", "-quiet", "-connect", &format!("{host}:{port}")]);
	let mut child = harness(cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn(), "openssl")?;
	let req = format!("GET {target} HTTP/1.1\r\nHost: {host}\r\nConnection: close\r\n\r\n");
	// It may already be gone when nobody talks TLS.
	let mut stdin = child.stdin.take().unwrap();
	let _ = stdin.write_all(req.as_bytes());
	let _ = stdin.flush();
	let mut raw = vec![];
	harness(child.stdout.take().unwrap().read_to_end(&mut raw), "openssl")?;
	drop(stdin);
	harness(child.wait(), "openssl")?;
	parse(target, raw)
}

fn parse(target: &str, raw: Vec<u8>) -> Result<Resp, Fail> {
	let cut = raw.windows(4).position(|w| w == b"\r\n\r\n");
	let Some(cut) = cut else { return Err(Fail::Violation(format!("GET {target}: no answer, the connection was closed"))) };
	let head = String::from_utf8_lossy(&raw[..cut]).into_owned();
	let mut lines = head.split("\r\n");
	let status = lines.next().and_then(|l| l.split(' ').nth(1)).and_then(|s| s.parse().ok());
	let Some(status) = status else { return Err(Fail::Violation(format!("GET {target}: bad status line in {head:?}"))) };
	let headers: Vec<(String, String)> = lines.filter_map(|l| l.split_once(':')).map(|(a, b)| (a.to_string(), b.trim().to_string())).collect();
	let find = |n: &str| headers.iter().find(|h| h.0.eq_ignore_ascii_case(n)).map(|h| h.1.clone());
	let mut body = raw[cut + 4..].to_vec();
	if find("transfer-encoding").is_some_and(|t| t.contains("chunked")) {
		body = dechunk(&body).ok_or_else(|| Fail::Violation(format!("GET {target}: incomplete answer")))?;
	} else if let Some(n) = find("content-length").and_then(|n| n.parse::<usize>().ok()) {
		if body.len() < n {
			return Err(Fail::Violation(format!("GET {target}: incomplete answer")))
		}
		body.truncate(n);
	}
	Ok(Resp { status, headers, body: String::from_utf8_lossy(&body).into_owned() })
}

fn dechunk(mut b: &[u8]) -> Option<Vec<u8>> {
	let mut out = vec![];
	loop {
		let nl = b.windows(2).position(|w| w == b"\r\n")?;
		let n = usize::from_str_radix(std::str::from_utf8(&b[..nl]).ok()?.split(';').next()?.trim(), 16).ok()?;
		b = &b[nl + 2..];
		if n == 0 {
			return Some(out)
		}
		out.extend(b.get(..n)?);
		b = b.get(n + 2..)?;
	}
}

/// Percent-encodes for a query string; `plus` decides about spaces.
pub fn enc(s: &str, plus: bool) -> String {
	let mut out = String::new();
	for b in s.bytes() {
		match b {
			b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'_' | b'.' | b'~' => out.push(b as char),
			b' ' if plus => out.push('+'),
			b => out += &format!("%{b:02X}"),
		}
	}
	out
}

/// `path?k=v&…`
pub fn target(path: &str, args: &[(String, String)]) -> String {
	let q: Vec<String> = args.iter().map(|(k, v)| format!("{}={}", enc(k, false), enc(v, v.len() % 2 == 0))).collect();
	format!("{path}?{}", q.join("&"))
}

// ---------------------------------------------------------------------------------------- HTML

#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
	/// Name and attributes with decoded values, all lower case.
	Start(String, Vec<(String, String)>),
	End(String),
	/// Decoded.
	Text(String),
	Comment(String),
	Doctype,
}

/// Decodes character references.
pub fn unescape(s: &str) -> String {
	const NAMED: [(&str, &str); 8] = [("amp", "&"), ("lt", "<"), ("gt", ">"), ("quot", "\""), ("apos", "'"), ("nbsp", "\u{a0}"), ("sol", "/"), ("grave", "`")];
	let mut out = String::new();
	let mut rest = s;
	while let Some(i) = rest.find('&') {
		out += &rest[..i];
		rest = &rest[i..];
		if let Some(num) = rest.strip_prefix("&#") {
			let (radix, digits) = match num.strip_prefix(['x', 'X']) {
				Some(d) => (16, d),
				None => (10, num),
			};
			let n = digits.chars().take_while(|c| c.is_digit(radix)).count();
			if let Some(c) = u32::from_str_radix(&digits[..n], radix).ok().and_then(char::from_u32) {
				out.push(c);
				rest = &digits[n..];
				rest = rest.strip_prefix(';').unwrap_or(rest);
				continue
			}
		} else {
			let legacy = |n: &str| ["amp", "lt", "gt", "quot", "nbsp"].contains(&n);
			let hit = NAMED.iter().find(|(n, _)| rest[1..].strip_prefix(n).is_some_and(|r| r.starts_with(';') || legacy(n)));
			if let Some((n, v)) = hit {
				out += v;
				rest = &rest[1 + n.len()..];
				rest = rest.strip_prefix(';').unwrap_or(rest);
				continue
			}
		}
		out.push('&');
		rest = &rest[1..];
	}
	out + rest
}

/// Splits a page like a browser would.
pub fn tokens(html: &str) -> Vec<Tok> {
	let c: Vec<char> = html.chars().collect();
	let mut out = vec![];
	let mut text = String::new();
	let mut i = 0;
	let flush = |text: &mut String, out: &mut Vec<Tok>| {
		if !text.is_empty() {
			out.push(Tok::Text(unescape(text)));
			text.clear();
		}
	};
	let find = |from: usize, pat: &str| -> Option<usize> {
		let p: Vec<char> = pat.chars().collect();
		(from..c.len().saturating_sub(p.len() - 1)).find(|&k| c[k..k + p.len()].iter().zip(&p).all(|(a, b)| a.eq_ignore_ascii_case(b)))
	};
	while i < c.len() {
		if c[i] != '<' || i + 1 >= c.len() {
			text.push(c[i]);
			i += 1;
			continue
		}
		let n = c[i + 1];
		let close = n == '/' && c.get(i + 2).is_some_and(|c| c.is_ascii_alphabetic());
		if n.is_ascii_alphabetic() || close {
			flush(&mut text, &mut out);
			i += if close { 2 } else { 1 };
			let mut name = String::new();
			while i < c.len() && !c[i].is_ascii_whitespace() && c[i] != '>' && c[i] != '/' {
				name.push(c[i].to_ascii_lowercase());
				i += 1;
			}
			let mut attrs: Vec<(String, String)> = vec![];
			loop {
				while i < c.len() && (c[i].is_ascii_whitespace() || c[i] == '/') {
					i += 1;
				}
				if i >= c.len() {
					break
				}
				if c[i] == '>' {
					i += 1;
					break
				}
				let mut an = String::new();
				// A leading `=` belongs to the name.
				while i < c.len() && !c[i].is_ascii_whitespace() && c[i] != '>' && c[i] != '/' && (c[i] != '=' || an.is_empty()) {
					an.push(c[i].to_ascii_lowercase());
					i += 1;
				}
				let mut k = i;
				while k < c.len() && c[k].is_ascii_whitespace() {
					k += 1;
				}
				let mut av = String::new();
				if k < c.len() && c[k] == '=' {
					i = k + 1;
					while i < c.len() && c[i].is_ascii_whitespace() {
						i += 1;
					}
					match c.get(i) {
						Some(&q @ ('"' | '\'')) => {
							i += 1;
							while i < c.len() && c[i] != q {
								av.push(c[i]);
								i += 1;
							}
							i += 1;
						},
						_ =>
							while i < c.len() && !c[i].is_ascii_whitespace() && c[i] != '>' {
								av.push(c[i]);
								i += 1;
							},
					}
				}
				attrs.push((an, unescape(&av)));
			}
			if close {
				out.push(Tok::End(name));
				continue
			}
			let raw = ["script", "style", "title", "textarea"].contains(&name.as_str());
			out.push(Tok::Start(name.clone(), attrs));
			if raw {
				let end = find(i, &format!("</{name}")).unwrap_or(c.len());
				let t: String = c[i..end].iter().collect();
				if !t.is_empty() {
					out.push(Tok::Text(if name == "title" || name == "textarea" { unescape(&t) } else { t }));
				}
				i = end;
			}
			continue
		}
		if n == '!' || n == '?' || n == '/' {
			flush(&mut text, &mut out);
			if c[i..].starts_with(&['<', '!', '-', '-']) {
				let end = find(i + 4, "-->").unwrap_or(c.len());
				out.push(Tok::Comment(c[(i + 4).min(end)..end].iter().collect()));
				i = end + 3;
			} else {
				let end = find(i, ">").unwrap_or(c.len());
				let t: String = c[i..end].iter().collect();
				out.push(if t.to_ascii_lowercase().starts_with("<!doctype") { Tok::Doctype } else { Tok::Comment(t) });
				i = end + 1;
			}
			continue
		}
		text.push('<');
		i += 1;
	}
	flush(&mut text, &mut out);
	out
}

/// A flat view of one element: the tokens between its start and its end tag.
pub fn inside<'a>(t: &'a [Tok], name: &str, attr: Option<(&str, &str)>) -> Option<&'a [Tok]> {
	let start = t.iter().position(|x| is_start(x, name, attr))?;
	let mut depth = 0;
	for (k, x) in t.iter().enumerate().skip(start) {
		match x {
			Tok::Start(n, _) if n == name => depth += 1,
			Tok::End(n) if n == name => {
				depth -= 1;
				if depth == 0 {
					return Some(&t[start + 1..k])
				}
			},
			_ => {},
		}
	}
	Some(&t[start + 1..])
}

pub fn is_start(t: &Tok, name: &str, attr: Option<(&str, &str)>) -> bool {
	match t {
		Tok::Start(n, a) => n == name && attr.map_or(true, |(k, v)| a.iter().any(|(x, y)| x == k && y == v)),
		_ => false,
	}
}

pub fn attr<'a>(t: &'a Tok, k: &str) -> Option<&'a str> {
	match t {
		// The first of equal attributes counts.
		Tok::Start(_, a) => a.iter().find(|(x, _)| x == k).map(|(_, v)| v.as_str()),
		_ => None,
	}
}

/// The text of these tokens, with white space collapsed.
pub fn text(t: &[Tok]) -> String {
	let mut s = String::new();
	for x in t {
		if let Tok::Text(x) = x {
			s += x;
			s.push(' ');
		}
	}
	squeeze(&s)
}

pub fn squeeze(s: &str) -> String {
	s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// Splits a slice at the start tags with that name; what is before the first is dropped.
pub fn split_at<'a>(t: &'a [Tok], name: &str) -> Vec<&'a [Tok]> {
	let at: Vec<usize> = t.iter().enumerate().filter(|(_, x)| is_start(x, name, None)).map(|x| x.0).collect();
	at.iter().enumerate().map(|(k, &s)| &t[s..at.get(k + 1).copied().unwrap_or(t.len())]).collect()
}

/// Repositories for the server below one directory.
pub fn repo_dir(tmp: &Tmp, name: &str) -> std::path::PathBuf {
	tmp.0.join("root").join(name)
}
