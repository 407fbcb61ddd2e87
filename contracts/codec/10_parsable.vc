@@ bound MqttUncheckedDeserialize Wire
@@ bound MqttSize Wire
@@ bound MqttDeserialize Wire
@@ bound MqttSerialize Wire

@@ members trait MqttUncheckedDeserialize
    /// the one length every value of the type takes
    spec fn fsz() -> nat;
    proof fn fsz_enc(&self) requires self.inv(), Self::fits(self.vv()) ensures Self::enc(self.vv()).len() == Self::fsz();
    proof fn fsz_short(s: Seq<u8>) requires s.len() < Self::fsz() ensures Self::parse(s) is None, !Self::must(s);
@@ fn trait MqttUncheckedDeserialize::fixed_size
    ensures ret == Self::fsz()
@@ fn trait MqttUncheckedDeserialize::unchecked_deserialize
    requires (*old($0)).bv().len() >= Self::fsz(),
    ensures
        ret matches Ok(x) ==> dec_ok((*old($0)).bv(), x) && dec_len::<Self>((*old($0)).bv()) == Self::fsz() && adv(*old($0), *final($0), Self::fsz() as int),
        ret is Err ==> !Self::must((*old($0)).bv()),
        ret matches Err(e) ==> !(e is InsufficientBuffer),
@@ members trait MqttSize
    spec fn mlo() -> nat;
    spec fn mhi() -> nat;
@@ fn trait MqttSize::size
    requires self.inv(), Self::fits(self.vv()),
    ensures ret == Self::enc(self.vv()).len(),
@@ fn trait MqttSize::min_size
    ensures Self::mlo() <= ret <= Self::mhi(),

@@ members MqttSize for T
    open spec fn mlo() -> nat { T::fsz() }
    open spec fn mhi() -> nat { T::fsz() }
@@ fn MqttSize for T::size
@@ entry
    proof { self.fsz_enc(); }
@@ fn MqttSize for T::min_size
@@ fn trait MqttDeserialize::deserialize
@@ tags C01
    requires Self::dpre((*old($0)).bv()),
    ensures
        ret matches Ok(x) ==> dec_ok((*old($0)).bv(), x) && adv(*old($0), *final($0), dec_len::<Self>((*old($0)).bv())), //! C02,C04,C06,C08,C10
        ret is Err ==> !Self::must((*old($0)).bv()), //! C02,C06,C10
@@ fn MqttDeserialize for S::deserialize
@@ entry
    proof { if $0.bv().len() < Self::fsz() { Self::fsz_short($0.bv()); } }
@@ fn trait MqttSerialize::serialize
    requires self.inv(), Self::fits(self.vv()),
    ensures (*final($0)).out() == (*old($0)).out() + Self::enc(self.vv()), //! C02,C03,C08
@@ end
