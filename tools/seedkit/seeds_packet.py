U = 'use apiformes_packet::prelude::*; use bytes::*; use std::sync::Arc;\n'
H = U + '''
fn enc(p: &Packet) -> Vec<u8> { let mut b = BytesMut::new(); p.to_bytes(&mut b); b.to_vec() }
fn dec(b: &[u8]) -> Result<Packet, DataParseError> { let mut x = b; Packet::from_bytes(&mut x) }
fn dec_rest(b: &[u8]) -> (Result<Packet, DataParseError>, usize) { let mut x = b; let r = Packet::from_bytes(&mut x); (r, x.len()) }
'''
SEEDS = []
def S(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=H + '#[allow(unused)] fn main() {\n' + demo + '\n}\n', needs=needs, breaks=breaks, **k))

S('P01-sub-options-unchecked', 'P01', [('packet/src/subscribe.rs', 'let options = SubscriptionOptions::deserialize(&mut buf)?;', 'let options = SubscriptionOptions::unchecked_deserialize(&mut buf)?;')],
  '''let b = [0x82u8, 0x06, 0, 1, 0, 0, 1, b'a'];
  let r = std::panic::catch_unwind(|| dec(&b).is_err()); assert!(matches!(r, Ok(true)));''',
  'a SUBSCRIBE frame that ends right after a topic filter, without the options byte', 'decoding reads past the end of the frame and panics')
S('P01-will-min-size', 'P01', [('packet/src/disconnect.rs', 'if length < Disconnect::min_size() - MqttVariableBytesInt::min_size() {', 'if length > 0 && length < Properties::min_size() {')],
  '''let b = [0xe0u8, 0x00];
  let r = std::panic::catch_unwind(|| dec(&b).is_err()); assert!(matches!(r, Ok(true)));''',
  'a DISCONNECT with remaining length 0', 'the reason code is read past the end of the frame')
S('P03-connect-order', 'P03', [('packet/src/connect.rs', '''        if let Some(username) = self.username.as_ref() {
            username.serialize(buf);
        }

        if let Some(password) = self.password.as_ref() {
            password.serialize(buf);
        }''', '''        if let Some(password) = self.password.as_ref() {
            password.serialize(buf);
        }

        if let Some(username) = self.username.as_ref() {
            username.serialize(buf);
        }''')],
  '''let mut c = Connect::new(Arc::from("c")).unwrap(); c.set_username(Arc::from("user")).unwrap(); c.set_password(&b"pw"[..]).unwrap();
  match dec(&enc(&c.build())) { Ok(Packet::Connect(d)) => { assert_eq!(&**d.username().unwrap(), "user"); assert_eq!(&d.password().unwrap()[..], b"pw"); } _ => panic!() }''',
  'a CONNECT with both user name and password', 'they are written in the wrong order and swap places when decoded')
S('P03-suback-tail', 'P03', [('packet/src/suback.rs', 'while buf.remaining() > 0 {', 'while reason_codes.len() < 64 && buf.remaining() > 0 {')],
  '''let mut s = SubAck::new(7); for _ in 0..65 { s.add_reason_code(SubAckReasonCode::GrantedQoS0); }
  match dec(&enc(&s.build())) { Ok(Packet::SubAck(d)) => assert_eq!(d.reason_codes().len(), 65), _ => panic!() }''',
  'a SUBACK with more than 64 reason codes', 'its encoding can not be decoded any more')
S('P04-unsub-dedup', 'P04', [('packet/src/unsubscribe.rs', '            topics.push(topic);\n        }\n        if', '''            if !topics.iter().any(|t: &MqttTopic| t.inner() == topic.inner()) {
                topics.push(topic);
            }
        }
        if''')],
  '''let b = [0xa2u8, 0x09, 0, 1, 0, 0, 1, b'a', 0, 1, b'a'];
  let p = dec(&b).ok().unwrap(); assert_eq!(p.frame_len(), b.len());''',
  'an UNSUBSCRIBE naming the same filter twice', 'the decoded packet reports fewer bytes than were consumed')
S('P07-puback-extra', 'P07', [('packet/src/reason.rs', '            0x97 => Ok(PubAckReasonCode::QuotaExceeded),', '            0x97 | 0x96 => Ok(PubAckReasonCode::QuotaExceeded),')],
  '''let b = [0x40u8, 0x04, 0, 1, 0x96, 0]; assert!(dec(&b).is_err());''',
  'a PUBACK with reason code 0x96', 'a reason code MQTT does not define for PUBACK is accepted and re-encoded as another one') 
S('P07-disconnect-swap', 'P07', [('packet/src/reason.rs', '0x9c => Ok(DisconnectReasonCode::UseAnotherServer),', '0x9d => Ok(DisconnectReasonCode::UseAnotherServer),'), ('packet/src/reason.rs', '0x9d => Ok(DisconnectReasonCode::ServerMoved),', '0x9c => Ok(DisconnectReasonCode::ServerMoved),')],
  '''let b = enc(&Disconnect::new(DisconnectReasonCode::ServerMoved).build()); let p = dec(&b).ok().unwrap(); assert_eq!(enc(&p), b);''',
  'a DISCONNECT with reason UseAnotherServer or ServerMoved', 'the two meanings are exchanged when decoding')
S('P08-will-delay-connect', 'P08', [('packet/src/props.rs', '(PropOwner::WILL, MqttPropValueType::FourBytesInt, false)', '(\n                    PropOwner::WILL | PropOwner::CONNECT,\n                    MqttPropValueType::FourBytesInt,\n                    false,\n                )')],
  '''let mut c = Connect::new(Arc::from("c")).unwrap(); assert!(c.add_prop(Property::WillDelayInterval, MqttPropValue::new_u32(1)).is_err());''',
  'a will delay interval among the CONNECT properties', 'it is accepted there although MQTT allows it only in the will')
S('P08-session-expiry-owner', 'P08', [('packet/src/props.rs', 'PropOwner::CONNECT | PropOwner::CONNACK | PropOwner::DISCONNECT,\n                MqttPropValueType::FourBytesInt,', 'PropOwner::CONNECT | PropOwner::CONNACK,\n                MqttPropValueType::FourBytesInt,')],
  '''let b = [0xe0u8, 0x07, 0, 5, 0x11, 0, 0, 0, 1]; assert!(dec(&b).is_ok());''',
  'a DISCONNECT carrying a session expiry interval', 'a legal packet is refused')
S('P09-will-retain', 'P09', [('packet/src/connect.rs', '''        if flags.intersects(
            ConnectFlags::WILL_QOS1 | ConnectFlags::WILL_QOS2 | ConnectFlags::WILL_RETAIN,
        )''', '''        if flags.intersects(ConnectFlags::WILL_QOS1 | ConnectFlags::WILL_QOS2)''')],
  '''let b = [0x10u8, 0x0e, 0, 4, b'M', b'Q', b'T', b'T', 5, 0x22, 0, 0, 0, 0, 1, b'a']; assert!(dec(&b).is_err());
  let b = [0x10u8, 0x0e, 0, 4, b'M', b'Q', b'T', b'T', 5, 0x02, 0, 0, 0, 0, 1, b'a']; assert!(dec(&b).is_ok());''',
  'a CONNECT with will retain set but no will', 'it is accepted')
S('P10-will-retain-before-check', 'P10', [('packet/src/connect.rs', '''        if self.flags.contains(ConnectFlags::WILL) {
            self.flags |= ConnectFlags::WILL_RETAIN;
            Ok(())''', '''        self.flags |= ConnectFlags::WILL_RETAIN;
        if self.flags.contains(ConnectFlags::WILL) {
            Ok(())''')],
  '''let mut c = Connect::new(Arc::from("c")).unwrap(); assert!(c.set_will_retain().is_err()); assert!(!c.flags().contains(ConnectFlags::WILL_RETAIN)); assert!(dec(&enc(&c.build())).is_ok());''',
  'set_will_retain called before a will is set', 'the refused call leaves the retain flag behind and the packet can not be decoded')
S('P11-chars-not-bytes', 'P11', [('packet/src/data.rs', 'if s.len() > 65535 {', 'if s.chars().count() > 65535 {')],
  '''let s: String = "\\u{e9}".repeat(40000); assert!(Will::new(Arc::from(s.as_str()), &b""[..]).is_err());
  let s = "a".repeat(65535); assert!(Will::new(Arc::from(s.as_str()), &b""[..]).is_ok());''',
  'a text of at most 65535 characters but more bytes', 'a text that does not fit its two-byte length is accepted')
S('P11-decoded-controls', 'P11', [('packet/src/data.rs', '        MqttUtf8String::new(Arc::from(s))\n', '''        if s.as_bytes().contains(&0) {
            return Err(DataParseError::BadMqttUtf8String);
        }
        Ok(MqttUtf8String { s: Arc::from(s) })
''')],
  '''let b = [0x82u8, 0x08, 0, 1, 0, 0, 2, b'a', 0x1b, 0]; assert!(dec(&b).is_err());''',
  'a decoded text with a control character other than NUL', 'it is accepted although the constructor refuses it')
S('P12-publish-wildcard', 'P12', [('packet/src/publish.rs', '''        if topic_name.is_wildcard() {
            return Err(DataParseError::BadTopic);
        }
''', '''        if topic_name.inner().ends_with('#') {
            return Err(DataParseError::BadTopic);
        }
''')],
  '''let b = [0x30u8, 0x06, 0, 3, b'a', b'/', b'+', 0]; assert!(dec(&b).is_err()); let b = [0x30u8, 0x06, 0, 3, b'a', b'/', b'#', 0]; assert!(dec(&b).is_err());''',
  'a received PUBLISH whose topic contains +', 'a pattern is accepted as the topic of a message')
S('P12-hash-level', 'P12', [('packet/src/topic.rs', "if prev != '/' || iter.peek().is_some() {", "if iter.peek().is_some() {")],
  '''let mut s = Subscribe::new(1); assert!(s.add_topic(Arc::from("a/b#"), SubscriptionOptions::empty()).is_err()); assert!(s.add_topic(Arc::from("a/#"), SubscriptionOptions::empty()).is_ok());''',
  'a filter whose last level ends with # but is not just #', 'it is accepted')
S('P13-will-owner', 'P13', [('packet/src/connect.rs', 'if props.is_valid_for(PropOwner::WILL) {', 'if props.is_valid_for(PropOwner::WILL) || props.is_valid_for(PropOwner::PUBLISH) {')],
  '''let b = [0x10u8, 0x17, 0, 4, b'M', b'Q', b'T', b'T', 5, 0x04, 0, 0, 0, 0, 1, b'a', 3, 0x23, 0, 1, 0, 1, b't', 0, 0]; let n = b.len(); let mut b = b; b[1] = (n - 2) as u8; assert!(dec(&b).is_err());''',
  'a CONNECT whose will properties hold a topic alias', 'it is accepted')
S('P14-pair-as-str', 'P14', [('packet/src/props.rs', '''        if let MqttPropValueInner::String(s) = &self.0 {
            Some(s.inner())
        } else {
            None
        }''', '''        match &self.0 {
            MqttPropValueInner::String(s) => Some(s.inner()),
            MqttPropValueInner::StringPair(p) => Some(p.inner().1),
            _ => None,
        }''')],
  '''let v = MqttPropValue::new_string_pair(Arc::from("k"), Arc::from("v")).unwrap(); assert!(v.into_str().is_none()); assert_eq!(&**v.into_str_pair().unwrap().0, "k");''',
  'reading a string pair through the text accessor', 'half of the pair is returned as a text')
S('P14-varint-mask', 'P14', [('packet/src/props.rs', 'MqttPropValueInner::VarInt(i) => Some(i.inner()),', 'MqttPropValueInner::VarInt(i) => Some(i.inner() & 0x1f_ffff),')],
  '''let v = MqttPropValue::new_varint(0x20_0001).unwrap(); assert_eq!(v.into_u32(), Some(0x20_0001));''',
  'a variable-length integer that needs four bytes', 'its accessor returns a truncated value')
S('P15-publish-chunk', 'P15', [('packet/src/publish.rs', '            payload: buf.copy_to_bytes(buf.remaining()),\n', '            payload: {\n                let payload = Bytes::copy_from_slice(buf.chunk());\n                buf.advance(payload.len());\n                payload\n            },\n')],
  '''let a: &[u8] = &[0x30, 0x08, 0, 1, b'a', 0, 1]; let c: &[u8] = &[2, 3, 4];
  let mut x = a.chain(c); match Packet::from_bytes(&mut x) { Ok(Packet::Publish(p)) => assert_eq!(&p.payload()[..], [1, 2, 3, 4]), _ => panic!() }''',
  'a PUBLISH payload that is split over two chunks of the buffer', 'only the first chunk is taken')

S('P02-prop-overwrite-size', 'P02', [('packet/src/props.rs', """            self.size += value.size();
            let old = self.props.insert(key, vec![value]);
            if let Some(v) = old.as_ref() {
                self.size -= v[0].size();
            } else {
                self.size += key.size();
            }""", """            let size = key.size() + value.size();
            let old = self.props.insert(key, vec![value]);
            if old.is_none() {
                self.size += size;
            }""")],
  """let mut c = ConnAck::new();
  c.add_prop(Property::ReasonString, MqttPropValue::new_string(Arc::from("a")).unwrap()).unwrap();
  c.add_prop(Property::ReasonString, MqttPropValue::new_string(Arc::from("bcd")).unwrap()).unwrap();
  let p = c.build(); let b = enc(&p); assert_eq!(b.len(), p.frame_len()); assert_eq!(b[1] as usize, b.len() - 2); assert!(dec(&b).is_ok());""",
  'replacing a single-valued property by a value of another length', 'the property length and the frame length are those of the first value')
S('P06-zero-flags-mask', 'P06', [('packet/src/packet_type.rs', 'if bits_u8(data, 0, 4) == 0 {', 'if bits_u8(data, 0, 3) == 0 {')],
  """assert!(dec(&[0xc8u8, 0]).is_err()); assert!(dec(&[0xc0u8, 0]).is_ok());""",
  'a first byte with only reserved bit 3 set', 'the frame is accepted')
S('P13-byte-for-bool', 'P13', [('packet/src/props.rs', """        if !filter.contains(ty) || prop_type != value.prop_type() {
            return Err(DataParseError::BadProperty);
        }""", """        let value_type = match value.prop_type() {
            MqttPropValueType::Byte if prop_type == MqttPropValueType::Bool => prop_type,
            t if t == prop_type => t,
            _ => return Err(DataParseError::BadProperty),
        };
        if !filter.contains(ty) || value_type != key.auxiliary_data().1 {
            return Err(DataParseError::BadProperty);
        }""")],
  """let mut c = Connect::new(Arc::from("c")).unwrap(); assert!(c.add_prop(Property::RequestProblemInformation, MqttPropValue::new_u8(7)).is_err()); assert!(c.add_prop(Property::RequestProblemInformation, MqttPropValue::new_bool(true)).is_ok());""",
  'a one-byte integer given for a boolean property', 'a value of the wrong type enters the table')
S('P09-dup-mask', 'P09', [('packet/src/packet.rs', 'let flags = bits_u8(byte1, 0, 4);', 'let flags = bits_u8(byte1, 0, 3);')],
  """match dec(&[0x3au8, 0x06, 0, 1, b'a', 0, 5, 0]) { Ok(Packet::Publish(p)) => assert!(p.flags().contains(PublishFlags::DUP)), _ => panic!() }""",
  'a received PUBLISH with the DUP flag', 'the flag is lost')
S('P16-refused-clears', 'P16', [('packet/src/connect.rs', '        self.password = Some(MqttBinaryData::new(password)?);', '        self.password = None;\n        self.password = Some(MqttBinaryData::new(password)?);')],
  """let mut c = Connect::new(Arc::from("c")).unwrap(); c.set_password(&b"abc"[..]).unwrap(); assert!(c.set_password(&vec![0u8; 70000][..]).is_err());
  assert_eq!(c.password().map(|p| p.to_vec()), Some(b"abc".to_vec()));""",
  'a password that is too long given to a CONNECT that already has one', 'the refused password takes the old one away')
S('P16-first-of-many', 'P16', [('packet/src/props.rs', 'self.props.get(&key).map(|v| v.as_ref())', 'self.props.get(&key).map(|v| &v[..v.len().min(2)])')],
  """let mut c = ConnAck::new(); for i in 0..4 { c.add_prop(Property::UserProperty, MqttPropValue::new_string(Arc::from(format!("{}", i))).unwrap()).unwrap(); assert_eq!(c.get_prop(Property::UserProperty).unwrap().len(), i + 1); }""",
  'a property that occurs more than twice', 'get_prop returns the first two values only')
S('P16-empty-payload', 'P16', [('packet/src/publish.rs', '        self.payload = buf;', '        if !buf.is_empty() {\n            self.payload = buf;\n        }')],
  """let mut p = Publish::new(Arc::from("t"), Bytes::from_static(b"x")).unwrap(); p.set_payload_bytes(Bytes::new()); assert!(p.payload().is_empty());""",
  'setting an empty payload on a PUBLISH that has one', 'the old payload stays')
S('P16-qos-drops-ident', 'P16', [('packet/src/publish.rs', '        if let QoS::QoS0 = qos {', '        if !matches!(qos, QoS::QoS2) {')],
  """let mut p = Publish::new(Arc::from("t"), Bytes::new()).unwrap(); p.set_qos(QoS::QoS2); p.set_packet_identifier(7).unwrap(); p.set_qos(QoS::QoS1); assert_eq!(p.packet_identifier(), Some(7));
  p.set_qos(QoS::QoS2); assert_eq!(p.packet_identifier(), Some(7)); p.set_qos(QoS::QoS0); assert_eq!(p.packet_identifier(), None);""",
  'lowering the QoS of a message with an identifier from 2 to 1', 'the identifier is lost')
S('P16-codes-in-front', 'P16', [('packet/src/unsuback.rs', 'self.reason_codes.push(reason_code);', 'self.reason_codes.insert(0, reason_code);')],
  """let mut a = UnsubAck::new(1); a.add_reason_code(UnsubAckReasonCode::Success); a.add_reason_code(UnsubAckReasonCode::NotAuthorized); assert!(matches!(a.reason_codes()[0], UnsubAckReasonCode::Success));""",
  'two different reason codes', 'they answer the filters in the opposite order')
