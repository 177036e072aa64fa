B = 'bm/src/client.rs'
SEEDS = []
def seed(id, prop, edits, needs, breaks, body):
    demo = '''use apiformes_packet::prelude::*;
use bytes::{Bytes, BytesMut};
use std::sync::Arc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpListener;
use tokio::time::{sleep, timeout};
fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("{}", what);
        std::process::exit(1);
    }
}
#[allow(dead_code)]
fn enc(ps: &[Packet]) -> Vec<u8> {
    let mut b = BytesMut::new();
    for p in ps {
        p.to_bytes(&mut b);
    }
    b.to_vec()
}
#[tokio::main]
async fn main() {
    let _ = (sleep(Duration::from_millis(0)), timeout(Duration::from_secs(1), async {}));
    let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let addr = l.local_addr().unwrap();
    let mut c = client::Client::new(addr).await.unwrap();
    let (mut s, _) = l.accept().await.unwrap();
''' + body + '''
    println!("ok");
}
'''
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, kit='demo_bm.sh'))
seed('S20-partial-write', 'S20', [(B, 'write_all_buf(', 'write_buf(')], 'a packet larger than what the socket takes at once', 'the benchmark client stops after the part of a packet the socket took',
'''    let p: Packet = Packet::Publish(Publish::new(Arc::from("t"), Bytes::from(vec![7u8; 24 << 20])).unwrap());
    let want = p.frame_len();
    let t = tokio::spawn(async move {
        sleep(Duration::from_millis(300)).await;
        let mut n = 0;
        let mut b = vec![0u8; 1 << 16];
        loop {
            match s.read(&mut b).await {
                Ok(0) | Err(_) => return n,
                Ok(k) => n += k,
            }
        }
    });
    c.send(&p).await.unwrap();
    drop(c);
    check(t.await.unwrap() == want, "the packet did not arrive whole");''')
seed('S20-shrinks-buffer', 'S20', [(B, '''        loop {
            let mut cursor''', '''        if self.recv_bytes.len() > 96 {
            // do not hold on to the memory of a burst
            self.recv_bytes = BytesMut::with_capacity(128);
        }
        loop {
            let mut cursor''')], 'more than 96 bytes of further packets received together with one', 'packets received in a burst are thrown away',
'''    let mk = |i: u8| -> Packet { Packet::Publish(Publish::new(Arc::from("t"), Bytes::from(vec![i; 8])).unwrap()) };
    let ps: Vec<Packet> = (0..20).map(mk).collect();
    s.write_all(&enc(&ps)).await.unwrap();
    s.shutdown().await.unwrap();
    sleep(Duration::from_millis(200)).await;
    for i in 0..20u8 {
        match timeout(Duration::from_secs(5), c.recv()).await {
            Ok(Ok(Packet::Publish(p))) => check(p.payload().first() == Some(&i), "a packet was lost"),
            _ => check(false, "packets were lost"),
        }
    }''')
seed('S20-ping-swallows', 'S20', [(B, '''                    self.recv_bytes.advance(packet.frame_len());
''', '''                    if let Packet::PingRes(_) = packet {
                        // nothing in it for the benchmark
                        self.recv_bytes.clear();
                        continue;
                    }
                    self.recv_bytes.advance(packet.frame_len());
''')], 'a PINGRESP received together with a packet after it', 'packets received right behind a PINGRESP are lost',
'''    let ps: Vec<Packet> = vec![
        Packet::Publish(Publish::new(Arc::from("a"), Bytes::from_static(b"1")).unwrap()),
        Packet::PingRes(Ping::new()),
        Packet::Publish(Publish::new(Arc::from("b"), Bytes::from_static(b"2")).unwrap()),
    ];
    s.write_all(&enc(&ps)).await.unwrap();
    let mut got = vec![];
    while let Ok(Ok(p)) = timeout(Duration::from_secs(2), c.recv()).await {
        if let Packet::Publish(p) = p {
            got.push(p.topic_name().to_string());
        }
    }
    check(got == ["a", "b"], "a packet was lost");''')
seed('S15-bm-bad-packet', 'S15', [(B, '''                Err(e) => panic!("{:?}", e),
''', '''                Err(e) => eprintln!("{:?}", e),
''')], 'a malformed packet from the server', 'the benchmark client decodes the same malformed packet for ever',
'''    s.write_all(&[0x00, 0x00, 0x00, 0x00]).await.unwrap();
    let t = tokio::spawn(async move { c.recv().await.is_ok() });
    match timeout(Duration::from_secs(5), t).await {
        Ok(Ok(true)) | Err(_) => check(false, "the receive loop did not end"),
        _ => (),
    }''')
