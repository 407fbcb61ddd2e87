@@ module client
/// `n` is `o` after the packet has been handed to it
pub open spec fn pushed(o: Client, p: Packet, n: Client) -> bool {
    n == (Client { outgoing: n.outgoing, ..o }) && n.outgoing.open() == o.outgoing.open()
    && n.outgoing.sent() == (if o.outgoing.open() { o.outgoing.sent().push(p) } else { o.outgoing.sent() })
}
@@ fn Client::new
@@ tags C18
    ensures ret.shutdown == $0, //! C18,C22
        ret.encrypted == $2, ret.max_packet_size == $3, ret.outgoing == $1, ret.problem_info, !ret.response_info, ret.topic_alias_max == 0, ret.session_expirary == 0, ret.recv_max == 0xffff, //! C18
@@ fn Client::encrypted
@@ tags C15
    ensures ret == self.encrypted,
@@ fn Client::shutdown
@@ fn Client::killme
@@ tags C21
    ensures self.killme.told(), //! C21
@@ fn Client::same_connection
@@ tags C21
@@ optional
    ensures ret == (self.killme == $0.killme), //! C21
@@ entry
    broadcast use notify_identity;
@@ fn Client::send
@@ tags C14,C16,C17
    requires $0.carried(),
    ensures pushed(*old(self), $0, *final(self)), ret is Ok <==> old(self).outgoing.open(),
@@ end
