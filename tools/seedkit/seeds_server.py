D = 'server-lib/src/dispatcher.rs'
C = 'server-lib/src/clients/'
W = C + 'clientworker.rs'
M = C + 'mqttclient.rs'
N = C + 'noiseclient.rs'
K = C + 'mod.rs'
T = 'server-lib/src/topics.rs'
L = 'server-lib/src/lib.rs'
KIT = open('/verif/tools/seedkit/kit.rs').read()
SEEDS = []
def seed(id, prop, edits, needs, breaks, body):
    demo = '''mod kit;
use kit::*;
#[tokio::main]
async fn main() {
    let panics = count_panics();
    let dead = || panics.load(std::sync::atomic::Ordering::SeqCst) > 0;
    let _ = &dead;
''' + body + '''
    check(!dead(), "a task panicked");
    println!("ok");
}
'''
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, kit='demo_server.sh', files={'kit.rs': KIT}))

# --- S01
seed('S01-noise-short-frame', 'S01',
 [(N, 'let mut message = vec![0; frame.remaining()];', 'let mut message = vec![0; frame.remaining() - 16];')],
 'an encrypted frame shorter than an authentication tag, after the handshake',
 'a client ends a server task with a panic',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::noise(s.noise, &s.public).await;
    c.connect("a").await;
    if let Chan::Noise(t, _) = &mut c.0 {
        frame_out(t, b"short").await.unwrap();
    }
    sleep(Duration::from_millis(700)).await;''')
seed('S01-content-type-preview', 'S01',
 [(D, '''                Property::ContentType => {
                    response.add_prop(Property::ContentType, v.clone()).unwrap()
                }''', '''                Property::ContentType => {
                    if let Some(value) = v.into_str() {
                        let preview = &value[..value.len().min(16)];
                        trace!("content type {}", preview);
                    }
                    response.add_prop(Property::ContentType, v.clone()).unwrap()
                }''')],
 'a content type with a character across its sixteenth byte',
 'a publisher ends the dispatcher task with a panic',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::plain(s.plain).await;
    c.connect("a").await;
    let e = "123456789012345\\u{e9}".as_bytes();
    let mut p = vec![3, 0, e.len() as u8];
    p.extend_from_slice(e);
    c.raw(&publish_bytes(0x30, "t", &p, b"x")).await;
    sleep(Duration::from_millis(700)).await;''')
# --- S02
seed('S02-auth-first', 'S02',
 [(W, '_ => Err(ServerError::FirstPacketNotConnect),', 'Packet::Auth(_) => Ok(()),\n            _ => Err(ServerError::FirstPacketNotConnect),')],
 'an AUTH packet as the first packet of a connection',
 'a connection becomes a client without CONNECT',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::plain(s.plain).await;
    c.raw(&packet(0xf0, vec![0x18, 0])).await;
    sleep(Duration::from_millis(500)).await;
    check(s.s.clients().await.is_empty(), "a client without CONNECT");''')
seed('S02-timeout-accepted', 'S02',
 [(M, '_ = sleep(Duration::new(keep_alive, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),', '_ = sleep(Duration::new(keep_alive, 0)) => ConnectState::Success,')],
 'a plain connection that stays silent until the time-out',
 'a connection becomes a client without CONNECT',
 '''    let s = start(Opt { keep_alive: 1, ..Opt::default() }).await;
    let c = Cl::plain(s.plain).await;
    sleep(Duration::from_millis(2500)).await;
    check(s.s.clients().await.is_empty(), "a client without CONNECT");
    drop(c);''')
# --- S03
seed('S03-will-without-retain', 'S03',
 [(W, 'if connect.will().is_some() {', 'if connect.will().is_some() && connect.flags().contains(ConnectFlags::WILL_RETAIN) {')],
 'a CONNECT with a will that is not retained',
 'a will the server never honours is accepted',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::plain(s.plain).await;
    c.raw(&connect_raw(2 | 4, "a", &[], &[0, 0, 1, b't', 0, 1, b'm'])).await;
    match c.next(MS).await {
        Ok(Some(Packet::ConnAck(k))) => check(k.reason_code() as u8 != 0, "a will was accepted"),
        o => fail(name(&o)),
    }''')
seed('S03-auth-data', 'S03',
 [(W, '''                Property::AuthenticationMethod => {
                    error!("Client attempted Authentication which is not supported");
                    return self.unimplemented().await;
                }''', '''                Property::AuthenticationMethod => {
                    error!("Client attempted Authentication which is not supported");
                    if connect.get_prop(Property::AuthenticationData).is_some() {
                        return self.unimplemented().await;
                    }
                }''')],
 'a CONNECT with an authentication method and no data',
 'enhanced authentication is accepted and never performed',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::plain(s.plain).await;
    c.raw(&connect_bytes("a", &[21, 0, 1, b'm'])).await;
    match c.next(MS).await {
        Ok(Some(Packet::ConnAck(k))) => check(k.reason_code() as u8 != 0, "authentication was accepted"),
        o => fail(name(&o)),
    }''')
# --- S04
seed('S04-strict-nolocal', 'S04',
 [(D, 'if strict_encryption && !c.encrypted() {', 'if strict_encryption && !c.encrypted() && !info.flags.contains(SubscriptionFlags::RETAIN_AS_PUBLISHED) {')],
 'strict permeability, and a plain subscriber that asked for Retain As Published',
 'an encrypted message goes out on a plain connection',
 '''    let s = start(Opt { strict: true, ..Opt::default() }).await;
    let mut p = Cl::plain(s.plain).await;
    p.connect("p").await;
    p.subscribe(&[("t", RAP)]).await;
    let mut n = Cl::noise(s.noise, &s.public).await;
    n.connect("n").await;
    n.publish("t", b"secret").await;
    check(p.quiet(MS).await, "an encrypted message on a plain connection");''')
# --- S05
seed('S05-send-error-stops', 'S05',
 [(D, 'trace!(clientid = target.as_ref(), "client shutdown: tx closed");', 'trace!(clientid = target.as_ref(), "client shutdown: tx closed"); break;')],
 'a subscriber whose connection ends while a message is delivered',
 'the remaining subscribers do not get the message',
 '''    // many subscribers that leave while messages go out: the one that stays must get every message
    let s = start(Opt::default()).await;
    let mut stay = Cl::plain(s.plain).await;
    stay.connect("stay").await;
    stay.subscribe(&[("t", QOS0)]).await;
    let mut send = Cl::plain(s.plain).await;
    send.connect("send").await;
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut hs = vec![];
    for i in 0..24 {
        let (port, stop) = (s.plain, stop.clone());
        hs.push(tokio::spawn(async move {
            let mut r = 0;
            while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                let mut c = Cl::plain(port).await;
                c.connect(&format!("c{}-{}", i, r)).await;
                c.raw(&subscribe_bytes(7, &[("t", QOS0)])).await;
                let _ = c.next(200).await;
                r += 1;
            }
        }));
    }
    let end = std::time::Instant::now() + Duration::from_secs(15);
    let mut n = 0u32;
    while std::time::Instant::now() < end {
        for k in 0..200u32 {
            send.publish("t", &(n + k).to_be_bytes()).await;
        }
        for k in 0..200u32 {
            match stay.got(5000).await {
                Some((_, b)) => check(b == (n + k).to_be_bytes(), "a message is missing"),
                None => fail("a message is missing"),
            }
        }
        n += 200;
    }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    for h in hs {
        let _ = h.await;
    }''')
seed('S05-correlation-lost', 'S05',
 [(D, '''                Property::CorrelationData => response
                    .add_prop(Property::CorrelationData, v.clone())
                    .unwrap(),''', '''                Property::CorrelationData => {
                    if publish.props_iter().any(|(k, _)| *k == Property::ResponseTopic) {
                        response
                            .add_prop(Property::CorrelationData, v.clone())
                            .unwrap()
                    }
                }''')],
 'a message with correlation data and no response topic',
 'the message arrives without its correlation data',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::plain(s.plain).await;
    c.connect("a").await;
    c.subscribe(&[("t", QOS0)]).await;
    c.raw(&publish_bytes(0x30, "t", &[9, 0, 2, 1, 2], b"x")).await;
    match c.next(MS).await {
        Ok(Some(Packet::Publish(p))) => check(p.get_prop(Property::CorrelationData).is_some(), "correlation data lost"),
        o => fail(name(&o)),
    }''')
seed('S05-nolocal-others', 'S05',
 [(D, 'if target.as_ref() == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {', 'if target.len() == client.len() && info.flags.contains(SubscriptionFlags::NO_LOCAL) {')],
 'a No Local subscriber whose identifier is as long as the publisher\'s',
 'the subscriber does not get messages of others',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::plain(s.plain).await;
    c.connect("a").await;
    c.subscribe(&[("t", NO_LOCAL)]).await;
    let mut d = Cl::plain(s.plain).await;
    d.connect("b").await;
    d.publish("t", b"x").await;
    check(c.got(MS).await.is_some(), "not delivered");''')
# --- S06
seed('S06-dup-alone', 'S06',
 [(D, '.intersects(PublishFlags::DUP | PublishFlags::RETAIN)', '.contains(PublishFlags::DUP | PublishFlags::RETAIN)')],
 'a retained message that is not a duplicate',
 'the message is forwarded and never retained, instead of being refused',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::plain(s.plain).await;
    c.connect("a").await;
    c.raw(&publish_bytes(0x31, "t", &[], b"x")).await;
    check(matches!(c.next(MS).await, Ok(Some(Packet::Disconnect(_)))), "not refused");''')
seed('S06-alias-after-response', 'S06',
 [(D, 'Property::TopicAlias => return self.unimplemented(client).await,', 'Property::TopicAlias => break,')],
 'a message with a topic alias',
 'the alias is ignored and the message forwarded',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::plain(s.plain).await;
    c.connect("a").await;
    c.subscribe(&[("t", QOS0)]).await;
    c.raw(&publish_bytes(0x30, "t", &[35, 0, 1], b"x")).await;
    check(matches!(c.next(MS).await, Ok(Some(Packet::Disconnect(_)))), "not refused");''')
# --- S07
seed('S07-second-filter', 'S07',
 [(D, '''                RetainHandling::DoNotSend => (),''', '''                RetainHandling::DoNotSend => (),
                RetainHandling::Send if topic.starts_with('+') => (),''')],
 'a filter starting with a single-level wildcard that asks for retained messages',
 'SUBACK grants retained messages the server does not have',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::plain(s.plain).await;
    c.connect("a").await;
    let r = c.subscribe(&[("+/a", 0), ("b", QOS0)]).await;
    check(r.len() == 2 && r[0] >= 0x80 && r[1] == 0, "wrong reason codes");''')
seed('S07-code-missing', 'S07',
 [(D, '''            match qos {
                QoS::QoS0 => (),
                _ => {
                    suback.add_reason_code(SubAckReasonCode::ImplementationSpecificError);
                    continue;''', '''            match qos {
                QoS::QoS0 => (),
                _ if sub.topics_iter().count() > 2 => break,
                _ => {
                    suback.add_reason_code(SubAckReasonCode::ImplementationSpecificError);
                    continue;''')],
 'a SUBSCRIBE with three filters, one of them above QoS 0',
 'SUBACK has fewer codes than there were filters',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::plain(s.plain).await;
    c.connect("a").await;
    let r = c.subscribe(&[("a", QOS0), ("b", QOS0 | 1), ("c", QOS0)]).await;
    check(r.len() == 3 && r[0] == 0 && r[1] >= 0x80 && r[2] == 0, "wrong reason codes");
    let mut d = Cl::plain(s.plain).await;
    d.connect("d").await;
    d.publish("c", b"x").await;
    check(c.got(MS).await.is_some(), "not subscribed");''')
# --- S08
seed('S14-detached-worker', 'S14',
 [(K, '''        self.workers
            .push(tokio::spawn(async move { worker.run().await }));''', '''        let task = tokio::spawn(async move { worker.run().await });
        if self.workers.len() < 64 {
            self.workers.push(task);
        }''')],
 'more than 64 clients at once',
 'shutdown does not wait for the tasks of the other clients, and their connections are never cleaned up',
 '''    let s = start(Opt::default()).await;
    let mut v = vec![];
    for i in 0..70 {
        let mut c = Cl::plain(s.plain).await;
        c.connect(&format!("c{}", i)).await;
        v.push(c);
    }
    drop(v);
    sleep(Duration::from_millis(1500)).await;
    check(s.s.clients().await.is_empty(), "clients left behind");''')
seed('S08-noise-deaf', 'S08',
 [(W, '''        tokio::select! {
            _ = killme.notified() => (),''', '''        tokio::select! {
            biased;
            _ = self.listen_forever() => (),
            _ = killme.notified() => (),'''), (W, '''            _ = shutdown.notified() => shutdown.notify_one(),
            _ = self.listen_forever() => (),
        }
        self.internals''', '''            _ = killme.notified() => (),
        }
        let _ = shutdown;
        self.internals''')],
 'a client connected while the server shuts down',
 'shutdown waits for ever',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::plain(s.plain).await;
    c.connect("a").await;
    sleep(Duration::from_millis(300)).await;
    check(timeout(Duration::from_secs(5), s.s.shutdown()).await.is_ok(), "shutdown hangs");''')
# --- S09
seed('S09-read-again', 'S09',
 [(D, 'if let Some(c) = clients.get(&target) {', '''// it may have gone meanwhile
            if !self.clients.read().await.contains_key(&target) {
                continue;
            }
            if let Some(c) = clients.get(&target) {''')],
 'a client connecting or leaving while a message is delivered to many subscribers',
 'the dispatcher waits for a lock behind a writer that waits for the dispatcher',
 '''    let s = start(Opt::default()).await;
    let mut subs = vec![];
    for i in 0..100 {
        let mut c = Cl::plain(s.plain).await;
        c.connect(&format!("s{}", i)).await;
        c.subscribe(&[("t", QOS0)]).await;
        subs.push(c);
    }
    let mut readers = vec![];
    for mut c in subs {
        readers.push(tokio::spawn(async move { while let Some(_) = c.recv().await {} }));
    }
    let mut d = Cl::plain(s.plain).await;
    d.connect("d").await;
    d.subscribe(&[("own", QOS0)]).await;
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut hs = vec![];
    for i in 0..8 {
        let (port, stop) = (s.plain, stop.clone());
        hs.push(tokio::spawn(async move {
            let mut r = 0;
            while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                let mut c = Cl::plain(port).await;
                c.raw(&connect_bytes(&format!("c{}-{}", i, r), &[])).await;
                let _ = c.next(200).await;
                sleep(Duration::from_millis(4)).await;
                r += 1;
            }
        }));
    }
    let end = std::time::Instant::now() + Duration::from_secs(20);
    while std::time::Instant::now() < end {
        for _ in 0..20 {
            d.publish("t", b"x").await;
        }
        d.publish("own", b"x").await;
        check(d.got(8000).await.is_some(), "the dispatcher hangs");
    }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);''')
# --- S12
seed('S12-reply-limit', 'S12',
 [(W, 'internals: Client::new(shutdown, outgoing_tx, c.is_encrypted(), cfg.max_packet_size),', 'internals: Client::new(shutdown, outgoing_tx, c.is_encrypted(), u32::MAX),')],
 'a configured limit smaller than CONNACK',
 'the server sends packets larger than its own limit',
 '''    let s = start(Opt { max: 24, ..Opt::default() }).await;
    let mut c = Cl::plain(s.plain).await;
    c.raw(&connect_bytes("a", &[])).await;
    check(!matches!(c.next(3000).await, Ok(Some(_))), "a packet larger than the limit");''')
seed('S12-take', 'S12',
 [(M, '''                    self.tcp_reader
                        .set_limit(self.max_packet_size as u64 - self.bytes.remaining() as u64);''', '''                    self.tcp_reader.set_limit(self.max_packet_size as u64);''')],
 'a packet larger than the limit, in two pieces',
 'a packet larger than the limit is accepted',
 '''    let s = start(Opt { max: 200, ..Opt::default() }).await;
    let mut c = Cl::plain(s.plain).await;
    c.connect("a").await;
    c.subscribe(&[("t", QOS0)]).await;
    let p = publish_bytes(0x30, "t", &[], &[7; 300]);
    c.raw(&p[..150]).await;
    sleep(Duration::from_millis(300)).await;
    c.raw(&p[150..]).await;
    check(c.closed(3000).await, "accepted");''')
# --- S13
seed('S13-fresh-buffer', 'S13',
 [(M, '''                    if self.bytes.remaining() == self.max_packet_size as usize {''', '''                    if self.bytes.capacity() < self.max_packet_size as usize {
                        let mut more = BytesMut::with_capacity(self.max_packet_size as usize);
                        let room = self.max_packet_size as usize - self.bytes.remaining();
                        self.tcp_reader.set_limit(room as u64);
                        let n = self.tcp_reader.read_buf(&mut more).await?;
                        if n == 0 {
                            return Err(ServerError::Misc("Client disconnected".to_owned()));
                        }
                        tokio::task::yield_now().await;
                        self.bytes.extend_from_slice(&more);
                        continue;
                    }
                    if self.bytes.remaining() == self.max_packet_size as usize {''')],
 'bytes arriving at the same moment as a message for the same client, after the first packet',
 'the wait is dropped between reading bytes and keeping them, and they are lost',
 '''    let s = start(Opt { max: 300, ..Opt::default() }).await;
    let mut c = Cl::plain(s.plain).await;
    c.connect("a").await;
    c.subscribe(&[("t", QOS0), ("u", QOS0)]).await;
    let mut d = Cl::plain(s.plain).await;
    d.connect("b").await;
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let s2 = stop.clone();
    let h = tokio::spawn(async move {
        while !s2.load(std::sync::atomic::Ordering::SeqCst) {
            d.publish("u", b"noise").await;
            tokio::task::yield_now().await;
        }
    });
    for i in 0..3000u32 {
        c.publish("t", &i.to_be_bytes()).await;
        let end = std::time::Instant::now() + Duration::from_secs(5);
        loop {
            check(std::time::Instant::now() < end, "a message is lost");
            match c.got(3000).await {
                Some((t, b)) if t == "t" => {
                    check(b == i.to_be_bytes(), "wrong message");
                    break;
                }
                Some(_) => (),
                None => fail("a message is lost"),
            }
        }
    }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    let _ = h.await;''')
seed('S14-old-stays', 'S14',
 [(W, '            _ = killme.notified() => (),\n', '            _ = killme.notified(), if self.internals.session_expirary == 0 => (),\n')],
 'a connection with a session expiry interval whose identifier is taken over',
 'the older connection is not terminated',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::plain(s.plain).await;
    c.connect_with("a", &[17, 0, 0, 0, 9]).await;
    sleep(Duration::from_millis(300)).await;
    let mut d = Cl::plain(s.plain).await;
    d.connect("a").await;
    check(c.closed(3000).await, "the older connection is open");''')
# --- S15
seed('S15-noise-error', 'S15',
 [(W, '''            if let Err(e) = self.listen().await {
''', '''            if let Err(e) = self.listen().await {
                if let ServerError::Noise(_) = e {
                    continue;
                }
''')],
 'an encrypted frame that does not authenticate',
 'the connection goes on after the error',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::noise(s.noise, &s.public).await;
    c.connect("a").await;
    if let Chan::Noise(t, _) = &mut c.0 {
        frame_out(t, &[9; 40]).await.unwrap();
    }
    check(c.closed(3000).await, "not ended");''')
# --- S16
seed('S16-short-plain', 'S16',
 [(N, 'let mut message = vec![0; frame.remaining()];', '''let mut message = vec![0; frame.remaining()];
        if frame.remaining() < message.len().max(16) {
            // shorter than a tag: a keep-alive, never encrypted
            return Packet::from_bytes(&mut &frame[..]).map_err(|e| e.into());
        }''')],
 'a frame shorter than an authentication tag that holds a packet',
 'bytes that were not authenticated are taken as a packet',
 '''    let s = start(Opt::default()).await;
    let mut d = Cl::plain(s.plain).await;
    d.connect("d").await;
    d.subscribe(&[("t", QOS0)]).await;
    let mut c = Cl::noise(s.noise, &s.public).await;
    c.connect("a").await;
    if let Chan::Noise(t, _) = &mut c.0 {
        frame_out(t, &publish_bytes(0x30, "t", &[], b"x")).await.unwrap();
    }
    check(d.quiet(MS).await, "unauthenticated bytes were taken as a packet");''')
seed('S16-plain-disconnect', 'S16',
 [(N, 'let mut frame = vec![0; bytes.remaining() + 100];', '''if let Packet::Disconnect(_) = p {
            return Ok(self.stream.send(bytes.freeze()).await?);
        }
        let mut frame = vec![0; bytes.remaining() + 100];''')],
 'a DISCONNECT sent to an encrypted client',
 'the packet is sent in the clear',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::noise(s.noise, &s.public).await;
    c.connect("a").await;
    c.raw(&publish_bytes(0x31, "t", &[], b"x")).await;
    check(matches!(c.next(MS).await, Ok(Some(Packet::Disconnect(_)))), "no disconnect");''')
# --- S17
seed('S17-second-wait', 'S17',
 [(N, '''    let state = tokio::select! {
        _ = shutdown.notified() => {
            shutdown.notify_one();
            ConnectState::ShuttingDown
        },
        v = client.connect() => v.into(),
        _ = sleep(Duration::new(keep_alive, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
    };''', '''    let state = tokio::select! {
        _ = shutdown.notified() => {
            shutdown.notify_one();
            ConnectState::ShuttingDown
        },
        v = client.connect() => v.into(),
    };''')],
 'an encrypted connection that stays silent after the handshake',
 'the connection is kept for ever',
 '''    let s = start(Opt { keep_alive: 1, ..Opt::default() }).await;
    let mut c = Cl::noise(s.noise, &s.public).await;
    check(c.closed(6000).await, "the connection is still open");''')
# --- S18
seed('S18-one-less', 'S18',
 [(L, 'channel(queue_len)', 'channel(queue_len - 1)')],
 'a queue size below that of two elements', 'the server cannot be started', '''    let s = start(Opt { queue: 0, ..Opt::default() }).await;
    let mut c = Cl::plain(s.plain).await;
    c.connect("a").await;
    check(c.subscribe(&[("t", QOS0)]).await == [0], "no answer");''')
# --- S19
seed('S19-wildcard', 'S19',
 [('server-lib/src/cfg.rs', 'pub const WILDCARD_SUB: bool = true;', 'pub const WILDCARD_SUB: bool = false;')],
 'a client that reads CONNACK', 'CONNACK says wildcard subscriptions are not available', '''    let s = start(Opt::default()).await;
    let mut c = Cl::plain(s.plain).await;
    let k = c.connect("a").await;
    match k.get_prop(Property::WildcardSubscriptionAvailable) {
        Some([v, ..]) => check(v.into_bool() == Some(true), "wrong announcement"),
        _ => (),
    }''')
# --- N03
seed('N03-two-out', 'N03',
 [(W, '''                let packet = p.map(Ok).unwrap_or_else(|| Err(ServerError::Misc("outgoing queue lost all its senders".to_owned())))?;''', '''                let packet = p.map(Ok).unwrap_or_else(|| Err(ServerError::Misc("outgoing queue lost all its senders".to_owned())))?;
                // acknowledgements first
                if let Packet::Publish(_) = packet {
                    if let Ok(next) = self.outgoing.try_recv() {
                        self.send(&next).await?;
                    }
                }''')],
 'two messages queued for one client',
 'they are sent in the opposite order',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::plain(s.plain).await;
    c.connect("a").await;
    c.subscribe(&[("t", QOS0)]).await;
    let mut d = Cl::plain(s.plain).await;
    d.connect("b").await;
    for r in 0..40u32 {
        let mut all = vec![];
        for i in 0..100u32 {
            all.extend(publish_bytes(0x30, "t", &[], &(r * 100 + i).to_be_bytes()));
        }
        d.raw(&all).await;
        for i in 0..100u32 {
            match c.got(5000).await {
                Some((_, b)) => check(b == (r * 100 + i).to_be_bytes(), "out of order"),
                None => fail("a message is lost"),
            }
        }
    }''')

# --- S10
def tseed(id, prop, edits, needs, breaks, body):
    demo = '''#![allow(dead_code)]
mod topics;
use apiformes_packet::prelude::*;
use std::sync::Arc;
use topics::*;
fn check(b: bool, m: &str) {
    if !b {
        println!("{}", m);
        std::process::exit(1);
    }
}
#[tokio::main(flavor = "multi_thread", worker_threads = 4)]
async fn main() {
''' + body + '''
    println!("ok");
}
'''
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, kit='demo_topics.sh', files={}))
tseed('S10-level-race', 'S10',
 [(T, '''            self.write()
                .await
                .sub_blocks
                .entry(Arc::from(subtopic))
                .or_insert_with(Block::new);
''', '''            let level: SubTopic = Arc::from(subtopic);
            self.write().await.sub_blocks.insert(level, Block::new());
''')],
 'two clients subscribing below the same new topic level at the same time',
 'one of the two subscriptions is lost',
 '''    let table = Arc::new(TopicsTable::new());
    for i in 0..60000u32 {
        let n = 4u32;
        let gate = Arc::new(std::sync::atomic::AtomicU32::new(0));
        let mut all = vec![];
        for c in 0..n {
            let table = table.clone();
            let gate = gate.clone();
            all.push(tokio::spawn(async move {
                gate.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let mut spin = 0u64;
                while gate.load(std::sync::atomic::Ordering::SeqCst) < n && spin < 200000 {
                    spin += 1;
                    std::hint::spin_loop();
                }
                let f: Arc<str> = Arc::from(format!("r{}/x", i));
                table.subscribe(Arc::from(format!("c{}", c)), f, QoS::QoS0, SubscriptionFlags::empty()).await;
            }));
        }
        for t in all {
            t.await.unwrap();
        }
        check(table.get_all_subscribed(&format!("r{}/x", i)).await.len() == n as usize, "a subscription is lost");
        for c in 0..n {
            table.unsubscribe_all(Arc::from(format!("c{}", c))).await;
        }
        check(table.get_all_subscribed(&format!("r{}/x", i)).await.is_empty(), "a subscription remains");
    }''')
seed('S10-removal-skips', 'S10',
 [(T, '''            for topic in topics {
                self.topic_remove''', '''            // entries below `$` levels belong to the server
            for topic in topics.into_iter().filter(|t| !t.starts_with('$')) {
                self.topic_remove''')],
 'a client with a subscription to a topic starting with $ ends and comes back',
 'the subscription of the ended connection is still there',
 '''    let s = start(Opt::default()).await;
    let mut d = Cl::plain(s.plain).await;
    d.connect("b").await;
    for f in ["t", "$x/y", "u/+", "v/#"] {
        let mut c = Cl::plain(s.plain).await;
        c.connect("a").await;
        c.subscribe(&[(f, QOS0)]).await;
        drop(c);
        sleep(Duration::from_millis(500)).await;
        let mut c = Cl::plain(s.plain).await;
        c.connect("a").await;
        for t in ["t", "$x/y", "u/q", "v/q"] {
            d.publish(t, b"1").await;
        }
        check(c.quiet(500).await, "a subscription of an ended connection delivers");
    }''')
seed('S10-first-stays', 'S10',
 [(T, "        self.subscribers.write().await.insert(clientid, info);", "        self.subscribers.write().await.entry(clientid).or_insert(info);")],
 'a client subscribing to the same filter a second time with other options',
 'the options of the first subscription stay in force',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::plain(s.plain).await;
    c.connect("a").await;
    for f in ["t", "u/#"] {
        let t = f.trim_end_matches("/#");
        c.subscribe(&[(f, QOS0)]).await;
        c.publish(t, b"1").await;
        check(c.got(3000).await.is_some(), "not delivered");
        c.subscribe(&[(f, NO_LOCAL)]).await;
        c.publish(t, b"2").await;
        check(c.quiet(500).await, "the second subscription has no effect");
    }''')
seed('S10-clear-all-hash', 'S10',
 [(T, "        self.hash_wildcard.write().await.remove(&clientid);", '''        let mut all = self.hash_wildcard.write().await;
        if all.remove(&clientid).is_some() && !all.contains_key("") {
            // nothing else to match with below this level
            if self.sub_blocks.is_empty() {
                all.clear();
            }
        }''')],
 'two clients with the same multi-level wildcard, one of which ends',
 'the other client\'s subscription is removed as well',
 '''    let s = start(Opt::default()).await;
    let mut c = Cl::plain(s.plain).await;
    c.connect("a").await;
    c.subscribe(&[("home/#", QOS0)]).await;
    let mut d = Cl::plain(s.plain).await;
    d.connect("b").await;
    d.subscribe(&[("home/#", QOS0)]).await;
    d.publish("home/x", b"1").await;
    check(c.got(3000).await.is_some(), "not delivered");
    drop(d);
    sleep(Duration::from_millis(500)).await;
    let mut e = Cl::plain(s.plain).await;
    e.connect("e").await;
    e.publish("home/x", b"2").await;
    check(c.got(3000).await.is_some(), "a subscription is lost");''')
seed('S10-index-overwritten', 'S10',
 [(T, '''            Entry::Occupied(mut e) => {
                e.get_mut().insert(topic);
            }
            Entry::Vacant(e) => {
                let s = e.insert(HashSet::new());
                s.insert(topic);
            }
''', '''            Entry::Occupied(mut e) => {
                if !e.get().contains(&topic) {
                    e.insert(std::iter::once(topic).collect());
                }
            }
            Entry::Vacant(e) => {
                e.insert(std::iter::once(topic).collect());
            }
''')],
 'a client with two subscriptions ends and comes back',
 'the first subscription of the ended connection is still there',
 '''    let s = start(Opt::default()).await;
    let mut d = Cl::plain(s.plain).await;
    d.connect("b").await;
    let mut c = Cl::plain(s.plain).await;
    c.connect("a").await;
    c.subscribe(&[("t", QOS0)]).await;
    c.subscribe(&[("u", QOS0)]).await;
    drop(c);
    sleep(Duration::from_millis(500)).await;
    let mut c = Cl::plain(s.plain).await;
    c.connect("a").await;
    d.publish("t", b"1").await;
    d.publish("u", b"1").await;
    check(c.quiet(600).await, "a subscription of an ended connection delivers");''')

# --- S11
def match_body(cases):
    return '''    let s = start(Opt::default()).await;
    let mut d = Cl::plain(s.plain).await;
    d.connect("pub").await;
    let cases: &[(&[&str], &str, &[bool])] = &[''' + cases + '''];
    for (i, (filters, topic, want)) in cases.iter().enumerate() {
        let mut all = vec![];
        for (j, f) in filters.iter().enumerate() {
            let mut c = Cl::plain(s.plain).await;
            c.connect(&format!("c{}-{}", i, j)).await;
            c.subscribe(&[(f, QOS0)]).await;
            all.push(c);
        }
        d.publish(topic, b"1").await;
        for (c, w) in all.iter_mut().zip(want.iter()) {
            if *w {
                check(c.got(3000).await.is_some(), "a matching filter finds nothing");
            } else {
                check(c.quiet(500).await, "a filter that does not match delivers");
            }
        }
        drop(all);
        sleep(Duration::from_millis(400)).await;
    }'''
seed('S11-plus-shadows', 'S11',
 [(T, '''            if let Some(sub_block) = raii.sub_blocks.get(section) {
                sub_block.collect_subs(subs, sections).await;''', '''            if raii.sub_blocks.contains_key("+") && section.is_empty() {
                return;
            }
            if let Some(sub_block) = raii.sub_blocks.get(section) {
                sub_block.collect_subs(subs, sections).await;''')],
 'a topic with an empty level, one filter with + and another with the empty level',
 'the filter with the empty level finds nothing',
 match_body('''
        (&["h//t", "h/+/t"], "h//t", &[true, true]),
        (&["h/k/t", "h/+/t"], "h/k/t", &[true, true]),
        (&["h/k/t", "h/+/t"], "h/m/t", &[false, true]),
    '''))
seed('S11-dollar-sys', 'S11',
 [(T, "if topic.starts_with('$') {", "if topic.starts_with(\"$SYS/\") {")],
 'a topic starting with $ other than below $SYS, and a filter starting with a wildcard',
 'a filter starting with a wildcard is sent the message',
 match_body('''
        (&["#", "+/x", "$other/x", "$other/#"], "$other/x", &[false, false, true, true]),
        (&["#", "+/x", "$SYS/x", "$SYS/+"], "$SYS/x", &[false, false, true, true]),
        (&["#", "+/x", "o/x"], "o/x", &[true, true, true]),
    '''))
seed('S11-parent', 'S11',
 [(T, '''        raii.collect_hash_wildcard(subs).await;
        if let Some(section) = sections.next() {''', '''        if sections.clone().next().is_some() {
            raii.collect_hash_wildcard(subs).await;
        }
        if let Some(section) = sections.next() {''')],
 'a filter ending with # and a message to the parent level itself',
 'the filter finds nothing',
 match_body('''
        (&["x/#", "x", "#", "x/+"], "x", &[true, true, true, false]),
        (&["x/#", "x/y/#", "x/y"], "x/y", &[true, true, true]),
    '''))
seed('S11-leading-slash', 'S11',
 [(T, '"" => "/",', '"" => sections.next().unwrap_or("/"),')],
 'a topic that starts with a slash',
 'it is found by a filter without the slash, and + does not match its first level',
 match_body('''
        (&["/a", "a", "+/a", "/#"], "/a", &[true, false, true, true]),
        (&["/a", "a", "+"], "a", &[false, true, true]),
    '''))
tseed('S11-lowest-qos', 'S11',
 [(T, '''            self.subscribers.read().await.keys().count()
        );
        for (clientid, info) in self.subscribers.read().await.iter() {
            match subs.entry(clientid.clone()) {
                Entry::Vacant(e) => {
                    e.insert(info.clone());
                }
                Entry::Occupied(mut e) => {
                    if e.get().qos < info.qos {
                        e.insert(info.clone());
                    }
                }''', '''            self.subscribers.read().await.keys().count()
        );
        for (clientid, info) in self.subscribers.read().await.iter() {
            match subs.entry(clientid.clone()) {
                Entry::Vacant(e) => {
                    e.insert(info.clone());
                }
                Entry::Occupied(mut e) => {
                    // the exact filter takes precedence
                    e.insert(info.clone());
                }''')],
 'a client with a wildcard filter of a higher QoS and an exact filter of a lower QoS',
 'the lower QoS is used',
 '''    for (wild, exact, other) in [(QoS::QoS2, QoS::QoS0, QoS::QoS1), (QoS::QoS1, QoS::QoS2, QoS::QoS0), (QoS::QoS0, QoS::QoS1, QoS::QoS0)] {
        let table = TopicsTable::new();
        let c: Arc<str> = Arc::from("c");
        table.subscribe(c.clone(), Arc::from("a/#"), wild, SubscriptionFlags::empty()).await;
        table.subscribe(c.clone(), Arc::from("a/b"), exact, SubscriptionFlags::empty()).await;
        table.subscribe(c.clone(), Arc::from("a/+"), other, SubscriptionFlags::empty()).await;
        let best = if wild > exact { wild } else { exact };
        check(table.get_all_subscribed("a/b").await["c"].qos == best, "not the highest QoS");
    }''')
