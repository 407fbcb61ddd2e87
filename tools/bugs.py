PACKET_HEAD = '''#![allow(unused)]
use apiformes_packet::prelude::*;
use bytes::{Buf, BufMut, Bytes, BytesMut};
use std::sync::Arc;
fn a(s: &str) -> Arc<str> { Arc::from(s) }
fn enc(p: &Packet) -> Vec<u8> { let mut v = vec![]; p.to_bytes(&mut v); v }
fn dec(b: &[u8]) -> Result<Packet, DataParseError> { Packet::from_bytes(&mut &b[..]) }
'''
P = "packet/src/"
BUGS = [
 dict(id="b01-replaced-property-size", property="C11", edits=[(P + "props.rs", "self.size -= v[0].size();", "self.size -= v[0].size() & 0xff;")],
  needs="a non-repeatable property set twice, the first value encoded in more than 255 bytes",
  breaks="the size of the property section keeps 256 bytes of the replaced value, so frame_len and the length fields are wrong",
  demo='''fn main() {
    let mut c = Auth::new(AuthReasonCode::Success);
    c.add_prop(Property::ReasonString, MqttPropValue::new_string(a(&"x".repeat(300))).unwrap()).unwrap();
    c.add_prop(Property::ReasonString, MqttPropValue::new_string(a("abcd")).unwrap()).unwrap();
    let p = c.build();
    let e = enc(&p);
    assert_eq!(p.frame_len(), e.len());
    let Packet::Auth(x) = dec(&e).unwrap() else { panic!() };
    assert_eq!(x.get_prop(Property::ReasonString).unwrap().len(), 1);
}
'''),
 dict(id="b02-vbi-prefix", property="C05", edits=[(P + "data.rs", """            if remaining == 0 {
                return Err(""", """            if remaining == 0 {
                if multiplier > 14 {
                    return Err(DataParseError::BadMqttVariableBytesInt);
                }
                return Err(""")],
  needs="a read that ends after exactly three continuation bytes of a four byte remaining length",
  breaks="an incomplete header is reported as malformed instead of insufficient, so a valid client is dropped",
  demo='''fn main() {
    let p = Publish::new(a("t"), Bytes::from(vec![0u8; 2100000])).unwrap().build();
    let e = enc(&p);
    for n in 0..12 {
        assert!(matches!(dec(&e[..n]), Err(DataParseError::InsufficientBuffer { .. })), "prefix {}", n);
    }
}
'''),
 dict(id="b03-hash-then-slash", property="C09", edits=[(P + "topic.rs", "if prev != '/' || iter.peek().is_some() {", "if prev != '/' || iter.peek().map_or(false, |c| !\"/#\".contains(*c)) {")],
  needs="a filter in which # is followed by a separator or another #",
  breaks="filters such as #/ and a/#/b are accepted",
  demo='''fn main() {
    for s in ["#/", "a/#/", "#/#", "a/#/b", "##"] { assert!(MqttTopic::new(a(s)).is_err(), "{}", s); }
    for s in ["#", "a/#", "+/#", "/#"] { assert!(MqttTopic::new(a(s)).is_ok(), "{}", s); }
}
'''),
 dict(id="b04-payload-first-chunk", property="C10", edits=[(P + "publish.rs", "payload: buf.copy_to_bytes(buf.remaining()),", "payload: buf.copy_to_bytes(buf.chunk().len()),")],
  needs="a PUBLISH whose payload is spread over several chunks of the input buffer",
  breaks="the frame is refused (or its payload cut) when the payload crosses a chunk boundary",
  demo='''fn main() {
    let e = enc(&Publish::new(a("t"), Bytes::from_static(b"hello world")).unwrap().build());
    for i in 0..e.len() {
        let mut b = Bytes::copy_from_slice(&e[..i]).chain(Bytes::copy_from_slice(&e[i..]));
        let Packet::Publish(p) = Packet::from_bytes(&mut b).ok().expect("decodes") else { panic!() };
        assert_eq!(&p.payload()[..], b"hello world");
    }
}
'''),
 dict(id="b05-connect-flags-truncate", property="C06", edits=[(P + "connect.rs", "ConnectFlags::from_bits(raw_flags.inner()).ok_or(DataParseError::BadConnectMessage)?;", "ConnectFlags::from_bits_truncate(raw_flags.inner());")],
  needs="a CONNECT with the reserved connect flag set",
  breaks="the reserved bit is silently dropped instead of refusing the packet",
  demo='''fn main() {
    let mut e = enc(&Connect::new(a("c")).unwrap().build());
    assert!(dec(&e).is_ok());
    e[9] |= 1;
    assert!(dec(&e).is_err());
}
'''),
 dict(id="b06-will-qos-bits", property="C07", edits=[(P + "connect.rs", "            self.flags -= ConnectFlags::WILL_QOS1 | ConnectFlags::WILL_QOS2;\n", "            self.flags -= if qos == QoS::QoS0 {\n                ConnectFlags::WILL_QOS1 | ConnectFlags::WILL_QOS2\n            } else {\n                self.flags & ConnectFlags::WILL_QOS1\n            };\n")],
  needs="set_will_qos(QoS2) followed by set_will_qos(QoS1) on the same packet",
  breaks="both QoS bits stay set, an undefined QoS that no peer accepts",
  demo='''fn main() {
    let mut c = Connect::new(a("c")).unwrap();
    c.set_will(Will::new(a("w"), Bytes::new()).unwrap());
    c.set_will_qos(QoS::QoS2).unwrap();
    c.set_will_qos(QoS::QoS1).unwrap();
    assert_eq!(c.flags().bits() & 0x18, 8);
    assert!(dec(&enc(&c.build())).is_ok());
}
'''),
 dict(id="b07-short-int-panics", property="C01", edits=[(P + "props.rs", "MqttPropValueInner::TwoBytesInt(MqttTwoBytesInt::deserialize(buf)?)", "MqttPropValueInner::TwoBytesInt(MqttTwoBytesInt::unchecked_deserialize(buf)?)")],
  needs="a property section that ends inside a two byte integer",
  breaks="decoding panics instead of returning an error",
  demo='''fn main() {
    // CONNACK whose receive maximum has one of two bytes
    let b = [0x20u8, 5, 0, 0, 2, 0x21, 1];
    let r = std::panic::catch_unwind(|| dec(&b).is_err());
    assert!(matches!(r, Ok(true)));
}
'''),
 dict(id="b08-quota-code", property="C08", edits=[(P + "reason.rs", "    BadAuthenicationMethod = 0x8c,\n    TopicNameInvalid = 0x90,", "    BadAuthenicationMethod = 0x8c,\n    TopicNameInvalid = 0x8f,"), (P + "reason.rs", "            0x90 => Ok(ConnAckReasonCode::TopicNameInvalid),", "            0x8f => Ok(ConnAckReasonCode::TopicNameInvalid),")],
  needs="a CONNACK with reason code topic name invalid",
  breaks="encoder and decoder agree on a number the standard does not give to this reason",
  demo='''fn main() {
    let mut c = ConnAck::new();
    c.set_reason_code(ConnAckReasonCode::TopicNameInvalid);
    assert_eq!(enc(&c.build())[3], 0x90);
}
'''),
 dict(id="b09-password-alone", property="C02", edits=[(P + "connect.rs", "let password = if flags.contains(ConnectFlags::PASSWORD) {", "let password = if flags.contains(ConnectFlags::USERNAME | ConnectFlags::PASSWORD) {")],
  needs="a CONNECT with a password and no user name",
  breaks="its encoding no longer decodes",
  demo="""fn main() {
    for (u, w) in [(false, false), (true, false), (true, true), (false, true)] {
        let mut c = Connect::new(a("id")).unwrap();
        if u { c.set_username(a("user")).unwrap(); }
        if w { c.set_password(Bytes::from_static(b"pw")).unwrap(); }
        let e = enc(&c.build());
        let Ok(Packet::Connect(x)) = dec(&e) else { panic!("does not decode: user {u}, password {w}") };
        assert_eq!((x.username().is_some(), x.password().is_some()), (u, w));
    }
}
"""),
 dict(id="b10-publish-header-size", property="C03", edits=[(P + "publish.rs", "        let size = self.partial_size();\n        MqttVariableBytesInt::new(size as u32).unwrap().size() + size\n", "        let header = self.topic_name.size() + self.props.size();\n        let payload = self.payload.remaining();\n        let header = header + self.packet_identifier.as_ref().map(|i| i.size()).unwrap_or(0);\n        let length = MqttVariableBytesInt::new((header + payload) as u32).unwrap();\n        // long headers are rare, so the payload decides how long the length field is\n        length.size().min(MqttVariableBytesInt::new(payload as u32 + 127).unwrap().size()) + header + payload\n")],
  needs="a PUBLISH whose remaining length needs more bytes than its payload plus 127",
  breaks="the frame length is less than what is written",
  demo="""fn main() {
    for t in [1usize, 100, 200, 16000, 40000] {
        for n in [0usize, 1, 50, 126, 127, 128, 129, 300, 16000, 17000] {
            let mut p = Publish::new(a(&"x".repeat(t)), Bytes::from(vec![7; n])).unwrap();
            let p = p.build();
            assert_eq!(p.frame_len(), enc(&p).len(), "topic of {t} bytes, payload of {n}");
        }
    }
}
"""),
 dict(id="b11-repeated-filter", property="C04", edits=[(P + "subscribe.rs", "            topics.push((topic, options));\n        }", "            // a filter that is repeated replaces the options of the first one\n            match topics\n                .iter_mut()\n                .find(|(t, _): &&mut (MqttTopic, SubscriptionOptions)| t.inner() == topic.inner())\n            {\n                Some((_, o)) => *o = options,\n                None => topics.push((topic, options)),\n            }\n        }")],
  needs="a SUBSCRIBE with the same filter twice",
  breaks="the decoded packet reports a shorter frame than the one consumed, so a reader that advances by it reads the rest as another packet",
  demo="""fn main() {
    let mut s = Subscribe::new(5);
    for (t, o) in [("a/b", 0u8), ("c", 1), ("a/b", 2)] { s.add_topic(a(t), SubscriptionOptions::from_bits(o).unwrap()).unwrap(); }
    let mut e = enc(&s.build());
    let n = e.len();
    e.extend_from_slice(&[0xc0, 0]);
    let mut b = &e[..];
    let Ok(p) = Packet::from_bytes(&mut b) else { panic!() };
    assert_eq!(b.len(), 2);
    assert_eq!(p.frame_len(), n, "the frame length of a decoded packet is what was consumed");
}
"""),
]
