//! Packets: generation of symbolic values and comparison with a frame read by `refp`.
use crate::api::*;
use crate::refp::*;
use super::strs::*;
use bytes::Bytes;
use super::mq::*;

/// What the generated packets range over.
pub struct G {
    /// longest string or binary field
    pub smax: u64,
    /// longest payload
    pub pay: u64,
    /// which string is empty: its number, ALL or NONE (the others have at least one byte);
    /// ANY: each may be empty
    pub empty: u64,
    pub nth: u64,
    /// user properties / subscription identifiers in a list that is present
    pub many: u64,
    /// also values the protocol forbids
    pub hostile: bool,
    /// 254: text is well-formed as a whole by construction; 255: any bytes, assumed to be well-formed
    pub text: u8,
    /// length of lists of filters and of reason codes; 0: by the shape
    pub lots: u64,
}
pub const NONE: u64 = 1000;
pub const ALL: u64 = 1001;
pub const ANY: u64 = 1002;
/// every string has three bytes
pub const LEN3: u64 = 1003;
/// every string has one byte
pub const LEN1: u64 = 1004;

impl G {
    pub fn new(smax: u64) -> G {
        G { smax, pay: smax, empty: NONE, nth: 0, many: 1, hostile: false, text: 254, lots: 0 }
    }
    fn raw(&mut self, max: u64, maxbyte: u8) -> Vec<u8> {
        let k = self.nth;
        self.nth += 1;
        let n = if self.empty == ANY {
            range(0, max)
        } else if self.empty == LEN3 {
            3
        } else if self.empty == LEN1 {
            1
        } else if self.empty == k || self.empty == ALL {
            0
        } else {
            range(1, max)
        };
        let mut v: Vec<u8> = Vec::with_capacity(max as usize + 1);
        fill(v.as_mut_ptr(), n as usize, maxbyte);
        unsafe { v.set_len(n as usize) };
        v
    }
    pub fn bin(&mut self) -> Bytes {
        let m = self.smax;
        Bytes::from(self.raw(m, 255))
    }
    pub fn payload(&mut self) -> Bytes {
        let m = self.pay;
        Bytes::from(self.raw(m, 255))
    }
    pub fn str(&mut self) -> MStr {
        let m = self.smax;
        let t = self.text;
        let v = self.raw(m, t);
        if t == 255 {
            assume(std::str::from_utf8(&v).is_ok());
        }
        mk(v)
    }
}

#[allow(non_snake_case)]
fn gen_B(_: &mut G, on: bool) -> Option<u8> {
    if on {
        Some(any_u8())
    } else {
        None
    }
}
#[allow(non_snake_case)]
fn gen_H(_: &mut G, on: bool) -> Option<u16> {
    if on {
        Some(any_u16())
    } else {
        None
    }
}
#[allow(non_snake_case)]
fn gen_W(_: &mut G, on: bool) -> Option<u32> {
    if on {
        Some(any_u32())
    } else {
        None
    }
}
#[allow(non_snake_case)]
fn gen_V(g: &mut G, on: bool) -> Option<usize> {
    if on {
        Some(subid(g))
    } else {
        None
    }
}
fn subid(g: &mut G) -> usize {
    if g.hostile {
        any_u64() as usize
    } else if g.lots > 0 {
        // as many bytes each
        range(128, 16383) as usize
    } else {
        range(0, 268_435_455) as usize
    }
}
#[allow(non_snake_case)]
fn gen_S(g: &mut G, on: bool) -> Option<MStr> {
    if on {
        Some(g.str())
    } else {
        None
    }
}
#[allow(non_snake_case)]
fn gen_D(g: &mut G, on: bool) -> Option<Bytes> {
    if on {
        Some(g.bin())
    } else {
        None
    }
}
#[allow(non_snake_case)]
fn gen_U(g: &mut G, on: bool) -> Vec<(MStr, MStr)> {
    let n = if on { g.many as usize } else { 0 };
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let k = g.str();
        v.push((k, g.str()));
    }
    v
}
#[allow(non_snake_case)]
fn gen_L(g: &mut G, on: bool) -> Vec<usize> {
    let n = if on { g.many as usize } else { 0 };
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(subid(g));
    }
    v
}

pub enum F<'a> {
    Num(Option<u64>),
    Str(Option<&'a [u8]>),
    Pairs(&'a [(MStr, MStr)]),
    Nums(&'a [usize]),
}
#[allow(non_snake_case)]
fn f_B(x: &Option<u8>) -> F<'_> {
    F::Num(x.map(|v| v as u64))
}
#[allow(non_snake_case)]
fn f_H(x: &Option<u16>) -> F<'_> {
    F::Num(x.map(|v| v as u64))
}
#[allow(non_snake_case)]
fn f_W(x: &Option<u32>) -> F<'_> {
    F::Num(x.map(|v| v as u64))
}
#[allow(non_snake_case)]
fn f_V(x: &Option<usize>) -> F<'_> {
    F::Num(x.map(|v| v as u64))
}
#[allow(non_snake_case)]
fn f_S(x: &Option<MStr>) -> F<'_> {
    F::Str(x.as_ref().map(by))
}
#[allow(non_snake_case)]
fn f_D(x: &Option<Bytes>) -> F<'_> {
    F::Str(x.as_ref().map(|b| &b[..]))
}
#[allow(non_snake_case)]
fn f_U(x: &Vec<(MStr, MStr)>) -> F<'_> {
    F::Pairs(x)
}
#[allow(non_snake_case)]
fn f_L(x: &Vec<usize>) -> F<'_> {
    F::Nums(x)
}

/// number of strings a property of this kind holds
const fn strs_of(k: &str) -> u64 {
    match k.as_bytes()[0] {
        b'S' | b'D' => 1,
        b'U' => 2,
        _ => 0,
    }
}

pub trait Props: Sized {
    const N: u32;
    fn gen(g: &mut G, mask: u32) -> Self;
    fn each(&self, f: &mut dyn FnMut(u8, F<'_>));
    fn strs(mask: u32, many: u64) -> u64;
    fn empty(&self) -> bool {
        let mut e = true;
        self.each(&mut |_, f| {
            e &= match f {
                F::Num(x) => x.is_none(),
                F::Str(x) => x.is_none(),
                F::Pairs(x) => x.is_empty(),
                F::Nums(x) => x.is_empty(),
            }
        });
        e
    }
}

macro_rules! props {
    ($t:ident { $($f:ident $k:ident $id:literal $g:ident $h:ident),* $(,)? }) => {
        impl Props for $t {
            const N: u32 = 0 $(+ { let _ = $id; 1 })*;
            #[allow(unused_assignments)]
            fn gen(g: &mut G, mask: u32) -> Self {
                let mut i = 0;
                $( let $f = $g(g, mask >> i & 1 == 1); i += 1; )*
                $t { $($f),* }
            }
            fn each(&self, f: &mut dyn FnMut(u8, F<'_>)) {
                $( f($id, $h(&self.$f)); )*
            }
            #[allow(unused_assignments)]
            fn strs(mask: u32, many: u64) -> u64 {
                let mut i = 0;
                let mut n = 0;
                $( if mask >> i & 1 == 1 {
                    n += strs_of(stringify!($k)) * if stringify!($k).as_bytes()[0] == b'U' { many } else { 1 };
                } i += 1; )*
                n
            }
        }
    };
}
props!(ConnectProperties {
    session_expiry_interval W 17 gen_W f_W, receive_maximum H 33 gen_H f_H, max_packet_size W 39 gen_W f_W,
    topic_alias_max H 34 gen_H f_H, request_response_info B 25 gen_B f_B, request_problem_info B 23 gen_B f_B,
    user_properties U 38 gen_U f_U, authentication_method S 21 gen_S f_S, authentication_data D 22 gen_D f_D,
});
props!(LastWillProperties {
    delay_interval W 24 gen_W f_W, payload_format_indicator B 1 gen_B f_B, message_expiry_interval W 2 gen_W f_W,
    content_type S 3 gen_S f_S, response_topic S 8 gen_S f_S, correlation_data D 9 gen_D f_D,
    user_properties U 38 gen_U f_U,
});
props!(ConnAckProperties {
    session_expiry_interval W 17 gen_W f_W, receive_max H 33 gen_H f_H, max_qos B 36 gen_B f_B,
    retain_available B 37 gen_B f_B, max_packet_size W 39 gen_W f_W, assigned_client_identifier S 18 gen_S f_S,
    topic_alias_max H 34 gen_H f_H, reason_string S 31 gen_S f_S, user_properties U 38 gen_U f_U,
    wildcard_subscription_available B 40 gen_B f_B, subscription_identifiers_available B 41 gen_B f_B,
    shared_subscription_available B 42 gen_B f_B, server_keep_alive H 19 gen_H f_H,
    response_information S 26 gen_S f_S, server_reference S 28 gen_S f_S, authentication_method S 21 gen_S f_S,
    authentication_data D 22 gen_D f_D,
});
props!(PublishProperties {
    payload_format_indicator B 1 gen_B f_B, message_expiry_interval W 2 gen_W f_W, topic_alias H 35 gen_H f_H,
    response_topic S 8 gen_S f_S, correlation_data D 9 gen_D f_D, user_properties U 38 gen_U f_U,
    subscription_identifiers L 11 gen_L f_L, content_type S 3 gen_S f_S,
});
props!(PubAckProperties { reason_string S 31 gen_S f_S, user_properties U 38 gen_U f_U });
props!(PubRecProperties { reason_string S 31 gen_S f_S, user_properties U 38 gen_U f_U });
props!(PubRelProperties { reason_string S 31 gen_S f_S, user_properties U 38 gen_U f_U });
props!(PubCompProperties { reason_string S 31 gen_S f_S, user_properties U 38 gen_U f_U });
props!(SubAckProperties { reason_string S 31 gen_S f_S, user_properties U 38 gen_U f_U });
props!(UnsubAckProperties { reason_string S 31 gen_S f_S, user_properties U 38 gen_U f_U });
props!(SubscribeProperties { id V 11 gen_V f_V, user_properties U 38 gen_U f_U });
props!(UnsubscribeProperties { user_properties U 38 gen_U f_U });
props!(DisconnectProperties {
    session_expiry_interval W 17 gen_W f_W, reason_string S 31 gen_S f_S, user_properties U 38 gen_U f_U,
    server_reference S 28 gen_S f_S,
});

/// Shape of a property set: which optional members are present.
#[derive(Clone, Copy)]
pub enum Sub {
    /// every subset
    Full,
    /// none, each one, each pair, all but one, all
    Pairs,
    /// none, each one, all
    Single,
    /// none, all
    Ends,
    /// all
    Whole,
    /// none
    Nil,
}
/// number of masks, k-th mask
fn masks(n: u32, s: Sub) -> u64 {
    let n = n as u64;
    match s {
        Sub::Full => 1 << n,
        Sub::Pairs => {
            if n <= 3 {
                1 << n
            } else {
                2 + n + n * (n - 1) / 2 + n
            }
        }
        Sub::Single => {
            if n <= 1 {
                1 << n
            } else {
                2 + n
            }
        }
        Sub::Ends => 2,
        Sub::Whole => 1,
        Sub::Nil => 1,
    }
}
fn mask(n: u32, s: Sub, k: u64) -> u32 {
    let all = (1u32 << n) - 1;
    match s {
        Sub::Full => k as u32,
        Sub::Pairs if n <= 3 => k as u32,
        Sub::Single if n <= 1 => k as u32,
        Sub::Ends => all * k as u32,
        Sub::Whole => all,
        Sub::Nil => 0,
        _ => {
            let mut k = k;
            if k == 0 {
                return 0;
            }
            if k == 1 {
                return all;
            }
            k -= 2;
            if k < n as u64 {
                return 1 << k;
            }
            k -= n as u64;
            if k < n as u64 {
                return all & !(1 << k);
            }
            k -= n as u64;
            let mut i = 0;
            while i < n {
                let mut j = i + 1;
                while j < n {
                    if k == 0 {
                        return 1 << i | 1 << j;
                    }
                    k -= 1;
                    j += 1;
                }
                i += 1;
            }
            0
        }
    }
}

/// What a family of packets ranges over.
#[derive(Clone, Copy)]
pub struct Shape {
    pub sub: Sub,
    /// also Some(properties) with nothing in it
    pub hollow: bool,
    /// longest list of filters / reason codes
    pub list: u64,
    /// vary which strings are empty
    pub empties: bool,
    /// lists of two user properties / subscription identifiers as well
    pub twos: bool,
}

fn opt<P: Props>(g: &mut G, sh: &Shape, extra: u64) -> Option<P> {
    let m = masks(P::N, sh.sub);
    // one more: no property set at all rather than an empty one
    let k = choose(m + if sh.hollow { 1 } else { 0 });
    if k == m {
        if sh.empties {
            empties(g, extra);
        }
        return Some(P::gen(g, 0));
    }
    let mk = mask(P::N, sh.sub, k);
    if sh.twos && mk != 0 {
        g.many = 1 + choose(2);
    }
    if sh.empties {
        empties(g, extra + P::strs(mk, g.many));
    }
    if mk == 0 {
        return None;
    }
    Some(P::gen(g, mk))
}
/// A property set of any type.
pub fn optional<P: Props>(g: &mut G, sh: &Shape) -> Option<P> {
    opt(g, sh, 0)
}
fn empties(g: &mut G, n: u64) {
    if n <= 1 {
        g.empty = ANY;
        return;
    }
    let k = choose(n + 2);
    g.empty = if k == n {
        NONE
    } else if k == n + 1 {
        ALL
    } else {
        k
    };
}

/// Where the choice among reasons and the like is not the point, one of them.
static mut TAME: bool = false;
pub fn tame() {
    unsafe { TAME = true }
}
/// ... or one after the other.
static mut CYCLE: u64 = 0;
pub fn cycle() {
    unsafe { CYCLE = 1 }
}
fn pick(n: u64) -> u64 {
    if unsafe { CYCLE } > 0 {
        unsafe { CYCLE += 1 };
        unsafe { CYCLE % n }
    } else if unsafe { TAME } {
        1 % n
    } else {
        choose(n)
    }
}
pub fn any_qos() -> QoS {
    match pick(3) {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        _ => QoS::ExactlyOnce,
    }
}

macro_rules! table {
    ($f:ident $g:ident $t:ident { $($v:ident = $c:literal),* $(,)? }) => {
        pub fn $f(x: &$t) -> u8 { match x { $($t::$v => $c),* } }
        pub fn $g() -> $t {
            const L: &[$t] = &[$($t::$v),*];
            match L[pick(L.len() as u64) as usize] { $($t::$v => $t::$v),* }
        }
    };
}
table!(c_puback g_puback PubAckReason { Success = 0, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicNameInvalid = 0x90, PacketIdentifierInUse = 0x91,
    QuotaExceeded = 0x97, PayloadFormatInvalid = 0x99 });
table!(c_pubrec g_pubrec PubRecReason { Success = 0, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicNameInvalid = 0x90, PacketIdentifierInUse = 0x91,
    QuotaExceeded = 0x97, PayloadFormatInvalid = 0x99 });
table!(c_pubrel g_pubrel PubRelReason { Success = 0, PacketIdentifierNotFound = 0x92 });
table!(c_pubcomp g_pubcomp PubCompReason { Success = 0, PacketIdentifierNotFound = 0x92 });
table!(c_unsuback g_unsuback UnsubAckReason { Success = 0, NoSubscriptionExisted = 0x11, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicFilterInvalid = 0x8f, PacketIdentifierInUse = 0x91 });
table!(c_disc g_disc DisconnectReasonCode { NormalDisconnection = 0x00, DisconnectWithWillMessage = 0x04,
    UnspecifiedError = 0x80, MalformedPacket = 0x81, ProtocolError = 0x82, ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87, ServerBusy = 0x89, ServerShuttingDown = 0x8b, KeepAliveTimeout = 0x8d,
    SessionTakenOver = 0x8e, TopicFilterInvalid = 0x8f, TopicNameInvalid = 0x90, ReceiveMaximumExceeded = 0x93,
    TopicAliasInvalid = 0x94, PacketTooLarge = 0x95, MessageRateTooHigh = 0x96, QuotaExceeded = 0x97,
    AdministrativeAction = 0x98, PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9a, QoSNotSupported = 0x9b,
    UseAnotherServer = 0x9c, ServerMoved = 0x9d, SharedSubscriptionNotSupported = 0x9e,
    ConnectionRateExceeded = 0x9f, MaximumConnectTime = 0xa0, SubscriptionIdentifiersNotSupported = 0xa1,
    WildcardSubscriptionsNotSupported = 0xa2 });
// 1, 2 and 3 are the MQTT 3.1.1 codes that MQTT 5 cannot express.
table!(c_connack g_connack_any ConnectReturnCode { Success = 0x00, UnspecifiedError = 0x80, MalformedPacket = 0x81,
    ProtocolError = 0x82, ImplementationSpecificError = 0x83, UnsupportedProtocolVersion = 0x84,
    ClientIdentifierNotValid = 0x85, BadUserNamePassword = 0x86, NotAuthorized = 0x87, ServerUnavailable = 0x88,
    ServerBusy = 0x89, Banned = 0x8a, BadAuthenticationMethod = 0x8c, TopicNameInvalid = 0x90,
    PacketTooLarge = 0x95, QuotaExceeded = 0x97, PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9a,
    QoSNotSupported = 0x9b, UseAnotherServer = 0x9c, ServerMoved = 0x9d, ConnectionRateExceeded = 0x9f,
    RefusedProtocolVersion = 1, BadClientId = 2, ServiceUnavailable = 3 });
pub fn c_suback(x: &SubscribeReasonCode) -> u8 {
    match x {
        SubscribeReasonCode::Success(QoS::AtMostOnce) => 0,
        SubscribeReasonCode::Success(QoS::AtLeastOnce) => 1,
        SubscribeReasonCode::Success(QoS::ExactlyOnce) => 2,
        SubscribeReasonCode::Unspecified => 0x80,
        SubscribeReasonCode::ImplementationSpecific => 0x83,
        SubscribeReasonCode::NotAuthorized => 0x87,
        SubscribeReasonCode::TopicFilterInvalid => 0x8f,
        SubscribeReasonCode::PkidInUse => 0x91,
        SubscribeReasonCode::QuotaExceeded => 0x97,
        SubscribeReasonCode::SharedSubscriptionsNotSupported => 0x9e,
        SubscribeReasonCode::SubscriptionIdNotSupported => 0xa1,
        SubscribeReasonCode::WildcardSubscriptionsNotSupported => 0xa2,
    }
}
pub fn g_suback() -> SubscribeReasonCode {
    match pick(12) {
        0 => SubscribeReasonCode::Success(QoS::AtMostOnce),
        1 => SubscribeReasonCode::Success(QoS::AtLeastOnce),
        2 => SubscribeReasonCode::Success(QoS::ExactlyOnce),
        3 => SubscribeReasonCode::Unspecified,
        4 => SubscribeReasonCode::ImplementationSpecific,
        5 => SubscribeReasonCode::NotAuthorized,
        6 => SubscribeReasonCode::TopicFilterInvalid,
        7 => SubscribeReasonCode::PkidInUse,
        8 => SubscribeReasonCode::QuotaExceeded,
        9 => SubscribeReasonCode::SharedSubscriptionsNotSupported,
        10 => SubscribeReasonCode::SubscriptionIdNotSupported,
        _ => SubscribeReasonCode::WildcardSubscriptionsNotSupported,
    }
}
pub fn c_rule(x: &RetainForwardRule) -> u8 {
    match x {
        RetainForwardRule::OnEverySubscribe => 0,
        RetainForwardRule::OnNewSubscribe => 1,
        RetainForwardRule::Never => 2,
    }
}
/// Any subscription options.
fn any_filter(g: &mut G) -> Filter {
    let path = g.str();
    let mut f = Filter { path, qos: QoS::AtMostOnce, nolocal: any_bool(), preserve_retain: any_bool(), retain_forward_rule: RetainForwardRule::OnEverySubscribe };
    let k = pick(5);
    // every QoS and every rule
    match k {
        0 => {}
        1 => f.qos = QoS::AtLeastOnce,
        2 => f.qos = QoS::ExactlyOnce,
        3 => f.retain_forward_rule = RetainForwardRule::OnNewSubscribe,
        _ => {
            f.qos = QoS::AtLeastOnce;
            f.retain_forward_rule = RetainForwardRule::Never
        }
    }
    f
}

macro_rules! ack {
    ($g:ident, $sh:ident, $t:ident, $r:ident) => {{
        let properties = opt($g, $sh, 0);
        $t { pkid: any_u16(), reason: $r(), properties }
    }};
}

/// How many filters or reason codes.
fn count(g: &G, sh: &Shape) -> u64 {
    if g.lots > 0 {
        g.lots
    } else if g.hostile {
        choose(sh.list + 1)
    } else {
        1 + choose(sh.list)
    }
}

/// A packet of the type with the given wire number.
pub fn packet(g: &mut G, ty: u64, sh: &Shape) -> Packet {
    match ty {
        1 => connect(g, sh),
        2 => {
            let properties = opt(g, sh, 0);
            let code = g_connack_any();
            if !g.hostile {
                assume(!matches!(
                    code,
                    ConnectReturnCode::RefusedProtocolVersion
                        | ConnectReturnCode::BadClientId
                        | ConnectReturnCode::ServiceUnavailable
                ));
            }
            Packet::ConnAck(ConnAck { session_present: any_bool(), code, properties })
        }
        3 => {
            let properties = opt(g, sh, 2);
            let qos = any_qos();
            let pkid = any_u16();
            if !g.hostile && qos != QoS::AtMostOnce {
                assume(pkid != 0);
            }
            let topic = g.str();
            Packet::Publish(Publish { dup: any_bool(), qos, retain: any_bool(), topic, pkid, payload: g.payload(), properties })
        }
        4 => Packet::PubAck(ack!(g, sh, PubAck, g_puback)),
        5 => Packet::PubRec(ack!(g, sh, PubRec, g_pubrec)),
        6 => Packet::PubRel(ack!(g, sh, PubRel, g_pubrel)),
        7 => Packet::PubComp(ack!(g, sh, PubComp, g_pubcomp)),
        8 => {
            let n = count(g, sh);
            let properties = opt(g, sh, n);
            let mut filters = Vec::with_capacity(n as usize);
            for _ in 0..n {
                filters.push(any_filter(g));
            }
            Packet::Subscribe(Subscribe { pkid: any_u16(), filters, properties })
        }
        9 => {
            let n = count(g, sh);
            let properties = opt(g, sh, 0);
            let mut return_codes = Vec::with_capacity(n as usize);
            for _ in 0..n {
                return_codes.push(g_suback());
            }
            Packet::SubAck(SubAck { pkid: any_u16(), return_codes, properties })
        }
        10 => {
            let n = if g.lots > 0 { g.lots } else { choose(sh.list + 1) };
            let properties = opt(g, sh, n);
            let mut filters = Vec::with_capacity(n as usize);
            for _ in 0..n {
                filters.push(g.str());
            }
            Packet::Unsubscribe(Unsubscribe { pkid: any_u16(), filters, properties })
        }
        11 => {
            let n = count(g, sh);
            let properties = opt(g, sh, 0);
            let mut reasons = Vec::with_capacity(n as usize);
            for _ in 0..n {
                reasons.push(g_unsuback());
            }
            Packet::UnsubAck(UnsubAck { pkid: any_u16(), reasons, properties })
        }
        12 => Packet::PingReq(PingReq),
        13 => Packet::PingResp(PingResp),
        _ => {
            let properties = opt(g, sh, 0);
            Packet::Disconnect(Disconnect { reason_code: g_disc(), properties })
        }
    }
}

/// Connect: with `sh.list` at least 2 the will and its properties vary, otherwise the connect properties do.
fn connect(g: &mut G, sh: &Shape) -> Packet {
    let will_side = choose(2) == 1;
    let fixed = Shape { sub: Sub::Nil, hollow: false, list: 0, empties: false, twos: false };
    let login_k = if unsafe { TAME || CYCLE > 0 } { 3 * choose(2) } else { choose(4) };
    // strings of login: present ones have at least one byte
    let nlogin = match login_k {
        0 => 0,
        1 | 2 => 1,
        _ => 2,
    };
    let (properties, will_props, will) = if will_side {
        let w: Option<LastWillProperties> = opt(g, sh, 3 + nlogin);
        (None, w, true)
    } else {
        let p: Option<ConnectProperties> = opt(g, sh, 1 + nlogin);
        let will = choose(2) == 1;
        let w: Option<LastWillProperties> = opt(g, &fixed, 0);
        (p, w, will)
    };
    let client_id = g.str();
    let will = if will {
        let qos = any_qos();
        let topic = g.bin();
        Some(LastWill { topic, message: g.bin(), qos, retain: any_bool(), properties: will_props })
    } else {
        None
    };
    let login = match login_k {
        0 => None,
        1 => Some(Login { username: g.str(), password: mk(Vec::new()) }),
        2 => Some(Login { username: mk(Vec::new()), password: g.str() }),
        _ => {
            let username = g.str();
            Some(Login { username, password: g.str() })
        }
    };
    let c = Connect { keep_alive: any_u16(), client_id, clean_start: any_bool(), properties };
    Packet::Connect(c, will, login)
}

fn canon_p<P: Props>(p: &mut Option<P>) {
    let e = match p {
        Some(x) => x.empty(),
        None => false,
    };
    if e {
        *p = None;
    }
}
/// The form the wire can express: an empty property set is no property set, an empty login is no
/// login, a QoS 0 publish has no packet identifier.
pub fn canon(mut p: Packet) -> Packet {
    match &mut p {
        Packet::Connect(c, w, l) => {
            canon_p(&mut c.properties);
            if let Some(w) = w {
                canon_p(&mut w.properties);
            }
            let none = match l {
                Some(l) => by(&l.username).is_empty() && by(&l.password).is_empty(),
                None => false,
            };
            if none {
                *l = None;
            }
        }
        Packet::ConnAck(x) => canon_p(&mut x.properties),
        Packet::Publish(x) => {
            canon_p(&mut x.properties);
            if x.qos == QoS::AtMostOnce {
                x.pkid = 0;
            }
        }
        Packet::PubAck(x) => canon_p(&mut x.properties),
        Packet::PubRec(x) => canon_p(&mut x.properties),
        Packet::PubRel(x) => canon_p(&mut x.properties),
        Packet::PubComp(x) => canon_p(&mut x.properties),
        Packet::Subscribe(x) => canon_p(&mut x.properties),
        Packet::SubAck(x) => canon_p(&mut x.properties),
        Packet::Unsubscribe(x) => canon_p(&mut x.properties),
        Packet::UnsubAck(x) => canon_p(&mut x.properties),
        Packet::Disconnect(x) => canon_p(&mut x.properties),
        Packet::PingReq(_) | Packet::PingResp(_) => {}
    }
    p
}

/// Size the packet reports for itself, for those that do.
pub fn own_size(p: &Packet) -> Option<usize> {
    match p {
        Packet::ConnAck(x) => Some(x.size()),
        Packet::Publish(x) => Some(x.size()),
        Packet::PubAck(x) => Some(x.size()),
        Packet::PubRec(x) => Some(x.size()),
        Packet::PubRel(x) => Some(x.size()),
        Packet::PubComp(x) => Some(x.size()),
        Packet::Subscribe(x) => Some(x.size()),
        Packet::SubAck(x) => Some(x.size()),
        Packet::Unsubscribe(x) => Some(x.size()),
        Packet::UnsubAck(x) => Some(x.size()),
        Packet::Disconnect(x) => Some(x.size()),
        _ => None,
    }
}

fn m_props<P: Props>(p: &Option<P>, items: &[Item], b: &B) {
    let p = match p {
        Some(p) => p,
        None => {
            ck(items.is_empty(), "a property on the wire is missing in the packet");
            return;
        }
    };
    let mut total = 0usize;
    p.each(&mut |id, f| {
        let mut n = 0usize;
        let mut last = 0usize;
        for (i, it) in items.iter().enumerate() {
            if it.id == id {
                n += 1;
                last = i;
            }
        }
        total += n;
        match f {
            F::Num(x) => {
                ck(x.is_some() == (n > 0), "property present in exactly one of packet and frame");
                if n == 1 {
                    ck(x == Some(items[last].num), "property value differs");
                }
            }
            F::Str(x) => {
                ck(x.is_some() == (n > 0), "property present in exactly one of packet and frame");
                if n == 1 {
                    if let Some(s) = x {
                        same(b, items[last].off, items[last].len, s, "property content differs");
                    }
                }
            }
            F::Pairs(v) => {
                ck(v.len() == n, "number of user properties differs");
                let mut k = 0;
                for it in items.iter() {
                    if it.id == id {
                        same(b, it.off, it.len, by(&v[k].0), "user property key differs");
                        same(b, it.off2, it.len2, by(&v[k].1), "user property value differs");
                        k += 1;
                    }
                }
            }
            F::Nums(v) => {
                ck(v.len() == n, "number of subscription identifiers differs");
                let mut k = 0;
                for it in items.iter() {
                    if it.id == id {
                        ck(v[k] as u64 == it.num, "subscription identifier differs");
                        k += 1;
                    }
                }
            }
        }
    });
    ck(total == items.len(), "a property on the wire has no place in the packet");
}

fn m_ack<P: Props>(ty: u8, pkid: u16, code: u8, p: &Option<P>, r: &Rf, b: &B) {
    ck(r.ty == ty, "packet type differs");
    ck(r.pkid == pkid, "packet identifier differs");
    ck(r.code == code, "reason code differs");
    m_props(p, &r.p1, b);
}

/// Assert that the packet says exactly what the frame says.
pub fn agree(p: &Packet, r: &Rf, b: &B) {
    match p {
        Packet::Connect(c, w, l) => {
            ck(r.ty == 1, "packet type differs");
            ck(r.keep == c.keep_alive, "keep alive differs");
            ck((r.a & 2 != 0) == c.clean_start, "clean start differs");
            m_props(&c.properties, &r.p1, b);
            let mut k = 0;
            same(b, r.s[k].0, r.s[k].1, by(&c.client_id), "client identifier differs");
            k += 1;
            ck((r.a & 4 != 0) == w.is_some(), "will present in exactly one of packet and frame");
            if let Some(w) = w {
                m_props(&w.properties, &r.p2, b);
                same(b, r.s[k].0, r.s[k].1, &w.topic, "will topic differs");
                same(b, r.s[k + 1].0, r.s[k + 1].1, &w.message, "will message differs");
                k += 2;
                ck(r.a >> 3 & 3 == w.qos as u8, "will QoS differs");
                ck((r.a & 0x20 != 0) == w.retain, "will retain differs");
            } else {
                ck(r.a & 0x38 == 0, "will bits without a will");
            }
            let (mut u, mut pw): (&[u8], &[u8]) = (&[], &[]);
            if let Some(l) = l {
                u = by(&l.username);
                pw = by(&l.password);
            }
            if r.a & 0x80 != 0 {
                same(b, r.s[k].0, r.s[k].1, u, "user name differs");
                k += 1;
            } else {
                ck(u.is_empty(), "user name not on the wire");
            }
            if r.a & 0x40 != 0 {
                same(b, r.s[k].0, r.s[k].1, pw, "password differs");
            } else {
                ck(pw.is_empty(), "password not on the wire");
            }
        }
        Packet::ConnAck(x) => {
            ck(r.ty == 2, "packet type differs");
            ck((r.a & 1 != 0) == x.session_present, "session present differs");
            ck(r.code == c_connack(&x.code), "return code differs");
            m_props(&x.properties, &r.p1, b);
        }
        Packet::Publish(x) => {
            ck(r.ty == 3, "packet type differs");
            ck((r.fl & 8 != 0) == x.dup, "dup differs");
            ck((r.fl & 1 != 0) == x.retain, "retain differs");
            ck(r.fl >> 1 & 3 == x.qos as u8, "QoS differs");
            if x.qos != QoS::AtMostOnce {
                ck(r.pkid == x.pkid, "packet identifier differs");
            }
            same(b, r.s[0].0, r.s[0].1, by(&x.topic), "topic differs");
            m_props(&x.properties, &r.p1, b);
            same(b, r.rest.0, r.rest.1, &x.payload, "payload differs");
        }
        Packet::PubAck(x) => m_ack(4, x.pkid, c_puback(&x.reason), &x.properties, r, b),
        Packet::PubRec(x) => m_ack(5, x.pkid, c_pubrec(&x.reason), &x.properties, r, b),
        Packet::PubRel(x) => m_ack(6, x.pkid, c_pubrel(&x.reason), &x.properties, r, b),
        Packet::PubComp(x) => m_ack(7, x.pkid, c_pubcomp(&x.reason), &x.properties, r, b),
        Packet::Subscribe(x) => {
            m_ack(8, x.pkid, 0, &x.properties, r, b);
            ck(r.s.len() == x.filters.len(), "number of filters differs");
            for (i, f) in x.filters.iter().enumerate() {
                same(b, r.s[i].0, r.s[i].1, by(&f.path), "filter differs");
                let o = r.o[i];
                ck(o & 3 == f.qos as u8, "filter QoS differs");
                ck((o & 4 != 0) == f.nolocal, "no local differs");
                ck((o & 8 != 0) == f.preserve_retain, "retain as published differs");
                ck(o >> 4 & 3 == c_rule(&f.retain_forward_rule), "retain handling differs");
            }
        }
        Packet::SubAck(x) => {
            m_ack(9, x.pkid, 0, &x.properties, r, b);
            ck(r.rest.1 == x.return_codes.len(), "number of return codes differs");
            for (i, c) in x.return_codes.iter().enumerate() {
                ck(b.at(r.rest.0 + i) == c_suback(c), "return code differs");
            }
        }
        Packet::Unsubscribe(x) => {
            m_ack(10, x.pkid, 0, &x.properties, r, b);
            ck(r.s.len() == x.filters.len(), "number of filters differs");
            for (i, f) in x.filters.iter().enumerate() {
                same(b, r.s[i].0, r.s[i].1, by(f), "filter differs");
            }
        }
        Packet::UnsubAck(x) => {
            m_ack(11, x.pkid, 0, &x.properties, r, b);
            ck(r.rest.1 == x.reasons.len(), "number of reasons differs");
            for (i, c) in x.reasons.iter().enumerate() {
                ck(b.at(r.rest.0 + i) == c_unsuback(c), "reason differs");
            }
        }
        Packet::Disconnect(x) => m_ack(14, 0, c_disc(&x.reason_code), &x.properties, r, b),
        Packet::PingReq(_) => ck(r.ty == 12, "packet type differs"),
        Packet::PingResp(_) => ck(r.ty == 13, "packet type differs"),
    }
}

fn long_p<P: Props>(p: &Option<P>) -> bool {
    let mut l = false;
    if let Some(p) = p {
        p.each(&mut |_, f| match f {
            F::Str(Some(s)) => l |= s.len() > 65535,
            F::Pairs(v) => {
                for (a, b) in v {
                    l |= by(a).len() > 65535;
                    l |= by(b).len() > 65535;
                }
            }
            _ => {}
        });
    }
    l
}
/// Some string or binary field cannot be expressed in a two-byte length.
pub fn too_long(p: &Packet) -> bool {
    match p {
        Packet::Connect(c, w, l) => {
            let mut t = long_p(&c.properties) | (by(&c.client_id).len() > 65535);
            if let Some(w) = w {
                t |= long_p(&w.properties) | (w.topic.len() > 65535) | (w.message.len() > 65535);
            }
            if let Some(l) = l {
                t |= by(&l.username).len() > 65535;
                t |= by(&l.password).len() > 65535;
            }
            t
        }
        Packet::ConnAck(x) => long_p(&x.properties),
        Packet::Publish(x) => long_p(&x.properties) | (by(&x.topic).len() > 65535),
        Packet::PubAck(x) => long_p(&x.properties),
        Packet::PubRec(x) => long_p(&x.properties),
        Packet::PubRel(x) => long_p(&x.properties),
        Packet::PubComp(x) => long_p(&x.properties),
        Packet::Subscribe(x) => {
            let mut t = long_p(&x.properties);
            for f in &x.filters {
                t |= by(&f.path).len() > 65535;
            }
            t
        }
        Packet::SubAck(x) => long_p(&x.properties),
        Packet::Unsubscribe(x) => {
            let mut t = long_p(&x.properties);
            for f in &x.filters {
                t |= by(f).len() > 65535;
            }
            t
        }
        Packet::UnsubAck(x) => long_p(&x.properties),
        Packet::Disconnect(x) => long_p(&x.properties),
        Packet::PingReq(_) | Packet::PingResp(_) => false,
    }
}

/// A packet of the type with these user properties and little else; 0: in the will.
pub fn with_users(ty: u64, v: Vec<(MStr, MStr)>) -> Packet {
    macro_rules! p {
        ($t:ident) => {{
            let mut p = $t::gen(&mut G::new(1), 0);
            p.user_properties = v;
            Some(p)
        }};
    }
    let t = mk(vec![b't']);
    match ty {
        0 => {
            let w = LastWill {
                topic: Bytes::from_static(b"t"),
                message: Bytes::from_static(b"m"),
                qos: QoS::AtMostOnce,
                retain: false,
                properties: p!(LastWillProperties),
            };
            Packet::Connect(Connect { keep_alive: 10, client_id: t, clean_start: true, properties: None }, Some(w), None)
        }
        1 => Packet::Connect(
            Connect { keep_alive: 10, client_id: t, clean_start: true, properties: p!(ConnectProperties) },
            None,
            None,
        ),
        2 => Packet::ConnAck(ConnAck {
            session_present: false,
            code: ConnectReturnCode::Success,
            properties: p!(ConnAckProperties),
        }),
        3 => Packet::Publish(Publish {
            dup: false,
            qos: QoS::AtMostOnce,
            retain: false,
            topic: t,
            pkid: 0,
            payload: Bytes::new(),
            properties: p!(PublishProperties),
        }),
        4 => Packet::PubAck(PubAck { pkid: 1, reason: PubAckReason::Success, properties: p!(PubAckProperties) }),
        5 => Packet::PubRec(PubRec { pkid: 1, reason: PubRecReason::Success, properties: p!(PubRecProperties) }),
        6 => Packet::PubRel(PubRel { pkid: 1, reason: PubRelReason::Success, properties: p!(PubRelProperties) }),
        7 => Packet::PubComp(PubComp { pkid: 1, reason: PubCompReason::Success, properties: p!(PubCompProperties) }),
        8 => Packet::Subscribe(Subscribe {
            pkid: 1,
            filters: vec![Filter { path: t, ..Default::default() }],
            properties: p!(SubscribeProperties),
        }),
        9 => Packet::SubAck(SubAck {
            pkid: 1,
            return_codes: vec![SubscribeReasonCode::Unspecified],
            properties: p!(SubAckProperties),
        }),
        10 => Packet::Unsubscribe(Unsubscribe { pkid: 1, filters: vec![t], properties: p!(UnsubscribeProperties) }),
        11 => Packet::UnsubAck(UnsubAck {
            pkid: 1,
            reasons: vec![UnsubAckReason::Success],
            properties: p!(UnsubAckProperties),
        }),
        _ => Packet::Disconnect(Disconnect {
            reason_code: DisconnectReasonCode::NormalDisconnection,
            properties: p!(DisconnectProperties),
        }),
    }
}

/// One piece of a packet's content.
pub enum Atom {
    N(u64),
    S(*const u8, usize),
}
fn sl(o: &mut Vec<Atom>, s: &[u8]) {
    o.push(Atom::S(s.as_ptr(), s.len()));
}
fn flat_p<P: Props>(o: &mut Vec<Atom>, p: &Option<P>) {
    let p = match p {
        None => return o.push(Atom::N(0)),
        Some(p) => p,
    };
    o.push(Atom::N(1));
    p.each(&mut |id, f| {
        o.push(Atom::N(id as u64));
        match f {
            F::Num(x) => {
                o.push(Atom::N(x.is_some() as u64));
                if let Some(x) = x {
                    o.push(Atom::N(x));
                }
            }
            F::Str(x) => {
                o.push(Atom::N(x.is_some() as u64));
                if let Some(x) = x {
                    sl(o, x);
                }
            }
            F::Pairs(v) => {
                o.push(Atom::N(v.len() as u64));
                for (k, x) in v {
                    sl(o, by(k));
                    sl(o, by(x));
                }
            }
            F::Nums(v) => {
                o.push(Atom::N(v.len() as u64));
                for x in v {
                    o.push(Atom::N(*x as u64));
                }
            }
        }
    });
}
/// The content of a packet, piece by piece.
pub fn flat(p: &Packet) -> Vec<Atom> {
    let mut v = Vec::with_capacity(64);
    let o = &mut v;
    macro_rules! ack {
        ($t:literal, $x:ident, $c:expr) => {{
            o.push(Atom::N($t));
            o.push(Atom::N($x.pkid as u64));
            o.push(Atom::N($c as u64));
            flat_p(o, &$x.properties);
        }};
    }
    match p {
        Packet::Connect(c, w, l) => {
            o.push(Atom::N(1));
            o.push(Atom::N(c.keep_alive as u64));
            o.push(Atom::N(c.clean_start as u64));
            sl(o, by(&c.client_id));
            flat_p(o, &c.properties);
            o.push(Atom::N(w.is_some() as u64));
            if let Some(w) = w {
                sl(o, &w.topic);
                sl(o, &w.message);
                o.push(Atom::N(w.qos as u64));
                o.push(Atom::N(w.retain as u64));
                flat_p(o, &w.properties);
            }
            o.push(Atom::N(l.is_some() as u64));
            if let Some(l) = l {
                sl(o, by(&l.username));
                sl(o, by(&l.password));
            }
        }
        Packet::ConnAck(x) => {
            o.push(Atom::N(2));
            o.push(Atom::N(x.session_present as u64));
            o.push(Atom::N(c_connack(&x.code) as u64));
            flat_p(o, &x.properties);
        }
        Packet::Publish(x) => {
            ack!(3, x, x.qos);
            o.push(Atom::N(x.dup as u64));
            o.push(Atom::N(x.retain as u64));
            sl(o, by(&x.topic));
            sl(o, &x.payload);
        }
        Packet::PubAck(x) => ack!(4, x, c_puback(&x.reason)),
        Packet::PubRec(x) => ack!(5, x, c_pubrec(&x.reason)),
        Packet::PubRel(x) => ack!(6, x, c_pubrel(&x.reason)),
        Packet::PubComp(x) => ack!(7, x, c_pubcomp(&x.reason)),
        Packet::Subscribe(x) => {
            ack!(8, x, x.filters.len());
            for f in x.filters.iter() {
                sl(o, by(&f.path));
                o.push(Atom::N(f.qos as u64));
                o.push(Atom::N(f.nolocal as u64));
                o.push(Atom::N(f.preserve_retain as u64));
                o.push(Atom::N(c_rule(&f.retain_forward_rule) as u64));
            }
        }
        Packet::SubAck(x) => {
            ack!(9, x, x.return_codes.len());
            for c in x.return_codes.iter() {
                o.push(Atom::N(c_suback(c) as u64));
            }
        }
        Packet::Unsubscribe(x) => {
            ack!(10, x, x.filters.len());
            for f in x.filters.iter() {
                sl(o, by(f));
            }
        }
        Packet::UnsubAck(x) => {
            ack!(11, x, x.reasons.len());
            for c in x.reasons.iter() {
                o.push(Atom::N(c_unsuback(c) as u64));
            }
        }
        Packet::PingReq(_) => o.push(Atom::N(12)),
        Packet::PingResp(_) => o.push(Atom::N(13)),
        Packet::Disconnect(x) => {
            o.push(Atom::N(14));
            o.push(Atom::N(c_disc(&x.reason_code) as u64));
            flat_p(o, &x.properties);
        }
    }
    v
}
