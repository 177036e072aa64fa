//! A small MQTT client, plain and encrypted, and a server started on loopback.
#![allow(dead_code)]
pub use apiformes_packet::prelude::*;
pub use apiformes_server_lib::{MqttServer, MqttServerConfig, Permeability};
pub use bytes::{Buf, BytesMut};
pub use std::time::Duration;
pub use tokio::io::{AsyncReadExt, AsyncWriteExt};
pub use tokio::net::TcpStream;
pub use tokio::time::{sleep, timeout};

pub const MS: u64 = 1500;
pub struct Srv {
    pub s: MqttServer,
    pub plain: u16,
    pub noise: u16,
    pub public: Vec<u8>,
}
pub struct Opt {
    pub keep_alive: u16,
    pub queue: usize,
    pub max: u32,
    pub strict: bool,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { keep_alive: 30, queue: 100_000, max: 10_000, strict: false }
    }
}
pub async fn start(o: Opt) -> Srv {
    let kp = snow::Builder::new("Noise_XK_25519_ChaChaPoly_BLAKE2s".parse().unwrap())
        .generate_keypair()
        .unwrap();
    let mut private_key = [0u8; 32];
    private_key.copy_from_slice(&kp.private);
    // the ports may be taken by others before the server has them
    for _ in 0..20 {
    let (a, b) = (std::net::TcpListener::bind("127.0.0.1:0").unwrap(), std::net::TcpListener::bind("127.0.0.1:0").unwrap());
    let (plain, noise) = (a.local_addr().unwrap().port(), b.local_addr().unwrap().port());
    drop((a, b));
    let cfg = MqttServerConfig {
        mqtt_socketaddr: Some(([127, 0, 0, 1], plain).into()),
        noise_socketaddr: Some(([127, 0, 0, 1], noise).into()),
        keep_alive: o.keep_alive,
        dispatcher_queue_size: o.queue,
        max_packet_size: o.max,
        channel_permeability: if o.strict { Permeability::Strict } else { Permeability::Permissive },
        private_key,
    };
    if let Ok(s) = MqttServer::new(cfg).await {
        return Srv { s, plain, noise, public: kp.public };
    }
    sleep(Duration::from_millis(100)).await;
    }
    fail("the server does not start")
}
pub fn count_panics() -> std::sync::Arc<std::sync::atomic::AtomicUsize> {
    let n = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let m = n.clone();
    std::panic::set_hook(Box::new(move |i| {
        eprintln!("{}", i);
        m.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }));
    n
}
pub fn fail(s: &str) -> ! {
    println!("WRONG: {}", s);
    std::process::exit(1)
}
pub fn check(b: bool, s: &str) {
    if !b {
        fail(s)
    }
}

pub enum Chan {
    Plain(TcpStream, BytesMut),
    Noise(TcpStream, snow::TransportState),
}
pub struct Cl(pub Chan);
pub async fn frame_out(s: &mut TcpStream, b: &[u8]) -> std::io::Result<()> {
    s.write_all(&(b.len() as u32).to_be_bytes()).await?;
    s.write_all(b).await
}
pub async fn frame_in(s: &mut TcpStream) -> Option<Vec<u8>> {
    let n = s.read_u32().await.ok()?;
    let mut v = vec![0; n as usize];
    s.read_exact(&mut v).await.ok()?;
    Some(v)
}
impl Cl {
    pub async fn plain(p: u16) -> Cl {
        let s = TcpStream::connect(("127.0.0.1", p)).await.unwrap();
        s.set_nodelay(true).unwrap();
        Cl(Chan::Plain(s, BytesMut::new()))
    }
    pub async fn noise(p: u16, public: &[u8]) -> Cl {
        let mut s = TcpStream::connect(("127.0.0.1", p)).await.unwrap();
        s.set_nodelay(true).unwrap();
        let b = snow::Builder::new("Noise_XK_25519_ChaChaPoly_BLAKE2s".parse().unwrap());
        let kp = b.generate_keypair().unwrap();
        let b = snow::Builder::new("Noise_XK_25519_ChaChaPoly_BLAKE2s".parse().unwrap());
        let mut h = b.local_private_key(&kp.private).remote_public_key(public).build_initiator().unwrap();
        let mut o = [0u8; 1000];
        let n = h.write_message(&[], &mut o).unwrap();
        frame_out(&mut s, &o[..n]).await.unwrap();
        let m = frame_in(&mut s).await.unwrap();
        h.read_message(&m, &mut o).unwrap();
        let n = h.write_message(&[], &mut o).unwrap();
        frame_out(&mut s, &o[..n]).await.unwrap();
        Cl(Chan::Noise(s, h.into_transport_mode().unwrap()))
    }
    pub async fn raw(&mut self, b: &[u8]) {
        match &mut self.0 {
            Chan::Plain(s, _) => {
                let _ = s.write_all(b).await;
            }
            Chan::Noise(s, t) => {
                let mut o = vec![0; b.len() + 100];
                let n = t.write_message(b, &mut o).unwrap();
                let _ = frame_out(s, &o[..n]).await;
            }
        }
    }
    pub async fn send(&mut self, p: &Packet) {
        let mut b = BytesMut::with_capacity(100);
        p.to_bytes(&mut b);
        self.raw(&b).await
    }
    /// the next packet, or None at the end of the stream
    pub async fn recv(&mut self) -> Option<Packet> {
        match &mut self.0 {
            Chan::Plain(s, b) => loop {
                let mut c = std::io::Cursor::new(&b[..]);
                match Packet::from_bytes(&mut c) {
                    Ok(p) => {
                        let n = c.position() as usize;
                        b.advance(n);
                        return Some(p);
                    }
                    Err(DataParseError::InsufficientBuffer { .. }) => {
                        if s.read_buf(b).await.unwrap_or(0) == 0 {
                            return None;
                        }
                    }
                    Err(e) => fail(&format!("undecodable packet {:?}", e)),
                }
            },
            Chan::Noise(s, t) => {
                let f = frame_in(s).await?;
                let mut o = vec![0; f.len()];
                let n = match t.read_message(&f, &mut o) {
                    Ok(n) => n,
                    Err(_) => fail("not a message of this session"),
                };
                let mut c = std::io::Cursor::new(&o[..n]);
                match Packet::from_bytes(&mut c) {
                    Ok(p) => Some(p),
                    Err(e) => fail(&format!("undecodable packet {:?}", e)),
                }
            }
        }
    }
    /// the next packet within a while: Ok(None) = end of stream, Err = nothing
    pub async fn next(&mut self, ms: u64) -> Result<Option<Packet>, ()> {
        timeout(Duration::from_millis(ms), self.recv()).await.map_err(|_| ())
    }
    pub async fn quiet(&mut self, ms: u64) -> bool {
        self.next(ms).await.is_err()
    }
    pub async fn closed(&mut self, ms: u64) -> bool {
        matches!(self.next(ms).await, Ok(None))
    }
    pub async fn connect(&mut self, id: &str) -> ConnAck {
        self.connect_with(id, &[]).await
    }
    pub async fn connect_with(&mut self, id: &str, props: &[u8]) -> ConnAck {
        self.raw(&connect_bytes(id, props)).await;
        match self.next(5000).await {
            Ok(Some(Packet::ConnAck(c))) => c,
            _ => fail("no connack"),
        }
    }
    pub async fn subscribe(&mut self, filters: &[(&str, u8)]) -> Vec<u8> {
        self.raw(&subscribe_bytes(7, filters)).await;
        match self.next(5000).await {
            Ok(Some(Packet::SubAck(a))) => suback_codes(&a),
            o => fail(&format!("no suback, {}", name(&o))),
        }
    }
    pub async fn publish(&mut self, topic: &str, payload: &[u8]) {
        self.raw(&publish_bytes(0x30, topic, &[], payload)).await
    }
    /// sends an own subscription and message and reads until it comes back
    pub async fn got(&mut self, ms: u64) -> Option<(String, Vec<u8>)> {
        match self.next(ms).await {
            Ok(Some(Packet::Publish(p))) => Some((p.topic_name().to_string(), p.payload().to_vec())),
            Ok(Some(_)) => fail("another packet"),
            _ => None,
        }
    }
}
pub fn suback_codes(a: &SubAck) -> Vec<u8> {
    let mut b = BytesMut::with_capacity(100);
    a.clone().build().to_bytes(&mut b);
    // one byte kind, one byte length, two bytes identifier, property length 0
    b[5..].to_vec()
}
pub fn name(o: &Result<Option<Packet>, ()>) -> &'static str {
    match o {
        Ok(Some(Packet::Disconnect(_))) => "disconnect",
        Ok(Some(Packet::ConnAck(_))) => "connack",
        Ok(Some(Packet::SubAck(_))) => "suback",
        Ok(Some(Packet::Publish(_))) => "publish",
        Ok(Some(_)) => "other",
        Ok(None) => "closed",
        Err(_) => "nothing",
    }
}
fn len(n: usize) -> Vec<u8> {
    let (mut v, mut n) = (vec![], n);
    loop {
        let mut b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            b |= 128
        }
        v.push(b);
        if n == 0 {
            return v;
        }
    }
}
fn s16(s: &[u8]) -> Vec<u8> {
    let mut v = (s.len() as u16).to_be_bytes().to_vec();
    v.extend_from_slice(s);
    v
}
pub fn packet(first: u8, body: Vec<u8>) -> Vec<u8> {
    let mut v = vec![first];
    v.extend(len(body.len()));
    v.extend(body);
    v
}
pub fn connect_raw(flags: u8, id: &str, props: &[u8], rest: &[u8]) -> Vec<u8> {
    let mut b = s16(b"MQTT");
    b.extend_from_slice(&[5, flags, 0, 60]);
    b.extend(len(props.len()));
    b.extend_from_slice(props);
    b.extend(s16(id.as_bytes()));
    b.extend_from_slice(rest);
    packet(0x10, b)
}
pub fn connect_bytes(id: &str, props: &[u8]) -> Vec<u8> {
    connect_raw(2, id, props, &[])
}
pub fn subscribe_bytes(ident: u16, filters: &[(&str, u8)]) -> Vec<u8> {
    subscribe_props(ident, &[], filters)
}
pub fn subscribe_props(ident: u16, props: &[u8], filters: &[(&str, u8)]) -> Vec<u8> {
    let mut b = ident.to_be_bytes().to_vec();
    b.extend(len(props.len()));
    b.extend_from_slice(props);
    for (f, o) in filters {
        b.extend(s16(f.as_bytes()));
        b.push(*o);
    }
    packet(0x82, b)
}
pub fn publish_bytes(first: u8, topic: &str, props: &[u8], payload: &[u8]) -> Vec<u8> {
    let mut b = s16(topic.as_bytes());
    if first & 6 != 0 {
        b.extend_from_slice(&[0, 9]);
    }
    b.extend(len(props.len()));
    b.extend_from_slice(props);
    b.extend_from_slice(payload);
    packet(first, b)
}
/// subscription options: no retained messages are asked for
pub const QOS0: u8 = 0x20;
pub const NO_LOCAL: u8 = 0x24;
pub const RAP: u8 = 0x28;
