#!/usr/bin/env python3
"""refactors.py [ID...]: edits that keep the behaviour, applied in a scratch clone; says for each what the proof
makes of it: "proved", "shifted" (the check falls back on the oracle: quiet) or "ALARM" (a failed obligation on
code that is right: has to become one of the other two)."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
WT = "/tmp/refac/repo"
T, D, W, M, Q, N = (f"server-lib/src/{x}.rs" for x in ("topics", "dispatcher", "clients/clientworker", "clients/mod", "clients/mqttclient", "clients/noiseclient"))
L, CL = "server-lib/src/lib.rs", "server-lib/src/clients/client.rs"
PK = lambda x: f"packet/src/{x}.rs"
R = []
def r(id, part, *edits):
    R.append((id, part, edits))

MERGE = '''            match subs.entry(clientid.clone()) {
                Entry::Vacant(e) => {
                    e.insert(info.clone());
                }
                Entry::Occupied(mut e) => {
                    if e.get().qos < info.qos {
                        e.insert(info.clone());
                    }
                }
            }
'''
r("t1", "topics", (T, MERGE, "            merge(subs, clientid, info);\n"), (T, "struct Block {\n", '''fn merge(subs: &mut HashMap<ClientId, SubscriptionInfo>, clientid: &ClientId, info: &SubscriptionInfo) {
    match subs.entry(clientid.clone()) {
        Entry::Vacant(e) => {
            e.insert(info.clone());
        }
        Entry::Occupied(mut e) => {
            if e.get().qos < info.qos {
                e.insert(info.clone());
            }
        }
    }
}

struct Block {
'''))
r("t2", "topics", (T, '''        let mut cleanup = false;
        if let Some(set) = raii.get_mut(clientid) {
            set.remove(topic);
            cleanup = set.is_empty();
        }
        if cleanup {
            raii.remove(clientid);
        }
''', '''        let cleanup = match raii.get_mut(clientid) {
            Some(set) => {
                set.remove(topic);
                set.is_empty()
            }
            None => false,
        };
        if cleanup {
            raii.remove(clientid);
        }
'''))
r("t3", "topics", (T, "        let info = SubscriptionInfo::new(qos, flags);\n", "        let info = SubscriptionInfo { qos, flags };\n"))
r("t4", "topics", (T, '''                    block
                        .read()
                        .await
                        .insert_into_hash(clientid, qos, flags)
                        .await;
''', '''                    let inner = block.read().await;
                    inner.insert_into_hash(clientid, qos, flags).await;
'''))
r("t5", "topics", (T, '''        if let Some(section) = sections.next() {
            // somewhere in the middle
            trace!("in collect_subs, section = `{}`", section);
            if let Some(sub_block) = raii.sub_blocks.get("+") {
                sub_block.collect_subs(subs, sections.clone()).await;
            }
            if let Some(sub_block) = raii.sub_blocks.get(section) {
                sub_block.collect_subs(subs, sections).await;
            }
        } else {
            // reached the end
            raii.collect_subscribers(subs).await;
        }
''', '''        match sections.next() {
            // reached the end
            None => raii.collect_subscribers(subs).await,
            Some(section) => {
                trace!("in collect_subs, section = `{}`", section);
                if let Some(sub_block) = raii.sub_blocks.get("+") {
                    sub_block.collect_subs(subs, sections.clone()).await;
                }
                if let Some(sub_block) = raii.sub_blocks.get(section) {
                    sub_block.collect_subs(subs, sections).await;
                }
            }
        }
'''))
r("t6", "topics", (T, '''        if let Some(topics) = self.reverse_index_remove_all(&clientid).await {
            for topic in topics {
                self.topic_remove(clientid.clone(), &topic).await
            }
        }
''', '''        let topics = match self.reverse_index_remove_all(&clientid).await {
            Some(topics) => topics,
            None => return,
        };
        for topic in topics {
            self.topic_remove(clientid.clone(), &topic).await
        }
'''))
r("t7", "topics", (T, '''        match self.reverse_index.write().await.entry(clientid) {
            Entry::Occupied(mut e) => {
                e.get_mut().insert(topic);
            }
            Entry::Vacant(e) => {
                let s = e.insert(HashSet::new());
                s.insert(topic);
            }
        }
''', '''        self.reverse_index
            .write()
            .await
            .entry(clientid)
            .or_insert_with(HashSet::new)
            .insert(topic);
'''))
r("t8", "topics", (T, '''        let starting_point = match sections.next().unwrap() {
            "" => "/",
            x => x,
        };
''', '''        let first = sections.next().unwrap();
        let starting_point = if first.is_empty() { "/" } else { first };
'''))
r("t9", "topics", (T, '''                if is_hash {
                    block.read().await.remove_from_hash(clientid).await
                } else {
                    block.read().await.remove_from_subs(clientid).await
                }
''', '''                let inner = block.read().await;
                match is_hash {
                    true => inner.remove_from_hash(clientid).await,
                    false => inner.remove_from_subs(clientid).await,
                }
'''))
r("t10", "topics", (T, '''                Entry::Occupied(mut e) => {
                    if e.get().qos < info.qos {
                        e.insert(info.clone());
                    }
                }
''', '''                Entry::Occupied(mut e) => {
                    let keep = e.get().qos >= info.qos;
                    if !keep {
                        e.insert(info.clone());
                    }
                }
'''))
# ------------------------------------------------------------------------------------- dispatcher
r("d1", "dispatcher", (D, '''            QoS::QoS1 => return self.unimplemented(client).await,
            QoS::QoS2 => return self.unimplemented(client).await,
        }
        if publish''', '''            QoS::QoS1 | QoS::QoS2 => return self.unimplemented(client).await,
        }
        if publish'''))
r("d2", "dispatcher", (D, '''        for (target, info) in self.topics.get_all_subscribed(topic).await {
            if target.as_ref() == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
                continue;
            }
            if let Some(c) = clients.get(&target) {
''', '''        let subscribed = self.topics.get_all_subscribed(topic).await;
        for (target, info) in subscribed {
            let own = target.as_ref() == client;
            if own && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
                continue;
            }
            if let Some(c) = clients.get(&target) {
'''))
r("d3", "dispatcher", (D, '''        let resp = response.build();
        let clients = self.clients.read().await;

''', '''        let clients = self.clients.read().await;
        let resp = response.build();

'''))
r("d4", "dispatcher", (D, '''            match qos {
                QoS::QoS0 => suback.add_reason_code(SubAckReasonCode::GrantedQoS0),
                QoS::QoS1 => suback.add_reason_code(SubAckReasonCode::GrantedQoS1),
                QoS::QoS2 => suback.add_reason_code(SubAckReasonCode::GrantedQoS2),
            }
''', '''            let granted = match qos {
                QoS::QoS0 => SubAckReasonCode::GrantedQoS0,
                QoS::QoS1 => SubAckReasonCode::GrantedQoS1,
                QoS::QoS2 => SubAckReasonCode::GrantedQoS2,
            };
            suback.add_reason_code(granted);
'''))
r("d5", "dispatcher", (D, '''            match qos {
                QoS::QoS0 => (),
                _ => {
                    suback.add_reason_code(SubAckReasonCode::ImplementationSpecificError);
                    continue;
                }
            }
            match (*options).try_into()? {
                RetainHandling::DoNotSend => (),
                _ => {
                    suback.add_reason_code(SubAckReasonCode::ImplementationSpecificError);
                    continue;
                }
            }
''', '''            let retain: RetainHandling = (*options).try_into()?;
            if qos != QoS::QoS0 || retain != RetainHandling::DoNotSend {
                suback.add_reason_code(SubAckReasonCode::ImplementationSpecificError);
                continue;
            }
'''))
r("d6", "dispatcher", (D, '''            let packetinfo = match self.incoming.recv().await {
                Some(p) => p,
                None => {
                    warn!("incomming tx is closed");
                    break;
                }
            };
            if let Err(e) = self
                .process_packet(
                    packetinfo.senderid.clone(),
                    packetinfo.encrypted,
                    packetinfo.packet,
                )
                .await
            {
                error!(clientid = &*packetinfo.senderid, "{:?}", e);
            }
''', '''            if let Some(PacketInfo { senderid, encrypted, packet }) = self.incoming.recv().await {
                let res = self.process_packet(senderid.clone(), encrypted, packet).await;
                if let Err(e) = res {
                    error!(clientid = &*senderid, "{:?}", e);
                }
            } else {
                warn!("incomming tx is closed");
                return;
            }
'''))
r("d7", "dispatcher", (D, '''        let clients = self.clients.read().await;
        if let Some(c) = clients.get(client) {
            if c.send(suback.build()).is_err() {
                error!(clientid = client.as_ref(), "Internal Error: tx closed");
            }
        }
        Ok(())
    }
''', '''        self.answer(client, suback.build()).await;
        Ok(())
    }
    async fn answer(&self, client: &str, packet: Packet) {
        let clients = self.clients.read().await;
        if let Some(c) = clients.get(client) {
            if c.send(packet).is_err() {
                error!(clientid = client, "Internal Error: tx closed");
            }
        }
    }
'''), (D, '''        let clients = self.clients.read().await;
        // the client might have gone away before its packet got processed
        if let Some(c) = clients.get(client) {
            if c.send(disconnect).is_err() {
                error!(clientid = client, "Internal Error: tx closed");
            }
        }
        Err(''', '''        self.answer(client, disconnect).await;
        Err('''))
r("d8", "dispatcher", (D, '''                #[cfg(feature = "noise")]
                if strict_encryption && !c.encrypted() {
                    continue;
                }
                // Only QoS 0 publishes without RETAIN get here, so neither the QoS of
                // the subscription nor its RETAIN_AS_PUBLISHED changes what is sent
                if c.send(resp.clone()).is_err() {
                    trace!(clientid = target.as_ref(), "client shutdown: tx closed");
                };
''', '''                #[cfg(feature = "noise")]
                let readable = c.encrypted() || !strict_encryption;
                #[cfg(not(feature = "noise"))]
                let readable = true;
                if readable && c.send(resp.clone()).is_err() {
                    trace!(clientid = target.as_ref(), "client shutdown: tx closed");
                };
'''))
r("d9", "dispatcher", (D, '''            if options.contains(SubscriptionOptions::NO_LOCAL) {
                flags |= SubscriptionFlags::NO_LOCAL;
            }
            if options.contains(SubscriptionOptions::RETAIN_AS_PUBLISHED) {
                flags |= SubscriptionFlags::RETAIN_AS_PUBLISHED;
            }
''', '''            flags.set(SubscriptionFlags::NO_LOCAL, options.contains(SubscriptionOptions::NO_LOCAL));
            flags.set(
                SubscriptionFlags::RETAIN_AS_PUBLISHED,
                options.contains(SubscriptionOptions::RETAIN_AS_PUBLISHED),
            );
'''))
r("d10", "dispatcher", (D, '''                Property::MessageExpiryInterval => return self.unimplemented(client).await,
                Property::TopicAlias => return self.unimplemented(client).await,
''', '''                Property::MessageExpiryInterval | Property::TopicAlias => {
                    return self.unimplemented(client).await
                }
'''))
r("d11", "dispatcher", (D, '''                Property::ResponseTopic => response
                    .add_prop(Property::ResponseTopic, v.clone())
                    .unwrap(),
                Property::CorrelationData => response
                    .add_prop(Property::CorrelationData, v.clone())
                    .unwrap(),
''', '''                Property::ResponseTopic | Property::CorrelationData => {
                    response.add_prop(*k, v.clone()).unwrap()
                }
'''))
r("d12", "dispatcher", (D, '''            _ = shutdown.notified() => shutdown.notify_one(),
            _ = self.process_forever() => (),
''', '''            _ = self.process_forever() => (),
            _ = shutdown.notified() => shutdown.notify_one(),
'''))
# ------------------------------------------------------------------------------------------- client
r("c1", "client", (W, '''                let packet = p?;
                let p = PacketInfo {
                    senderid: self.internals.clientid.clone(),
                    encrypted: self.internals.encrypted(),
                    packet,
                };
                self.incoming.send(p).await.
''', '''                let p = PacketInfo {
                    senderid: self.internals.clientid.clone(),
                    encrypted: self.internals.encrypted(),
                    packet: p?,
                };
                self.incoming.send(p).await.
'''))
r("c2", "client", (W, '''                let packet = p.map(Ok).unwrap_or_else(|| Err(ServerError::Misc("outgoing queue lost all its senders".to_owned())))?;
                self.conn.send(&packet).await?;
''', '''                match p {
                    Some(packet) => self.conn.send(&packet).await?,
                    None => return Err(ServerError::Misc("outgoing queue lost all its senders".to_owned())),
                }
'''))
r("c3", "client", (W, '''        if connect.username().is_some() {
            error!("Client attempted using username for authentication which is not supported");
            return self.unimplemented().await;
        }
        if connect.password().is_some() {
            error!("Client attempted using password for authentication which is not supported");
            return self.unimplemented().await;
        }
''', '''        if connect.username().is_some() || connect.password().is_some() {
            error!("Client attempted using username or password for authentication which is not supported");
            return self.unimplemented().await;
        }
'''))
r("c4", "client", (W, '''                Property::AuthenticationMethod => {
                    error!("Client attempted Authentication which is not supported");
                    return self.unimplemented().await;
                }
                Property::AuthenticationData => {
''', '''                Property::AuthenticationMethod | Property::AuthenticationData => {
'''))
r("c5", "client", (W, '''        let clientid = connect.clientid();
        if clientid.is_empty() {
            self''', '''        if connect.clientid().is_empty() {
            self'''), (W, "            self.internals.clientid = clientid.clone();\n        }\n        connack", "            self.internals.clientid = connect.clientid().clone();\n        }\n        connack"))
r("c6", "client", (W, '''        match self.conn.recv().await? {
            Packet::Connect(c) => self.process_connect(c).await,
            _ => Err(ServerError::FirstPacketNotConnect),
        }
''', '''        if let Packet::Connect(c) = self.conn.recv().await? {
            self.process_connect(c).await
        } else {
            Err(ServerError::FirstPacketNotConnect)
        }
'''))
r("c7", "client", (Q, '''                    if self.bytes.remaining() == self.max_packet_size as usize {
                        return Err(ServerError::MaxPacketSizeExceeded);
                    }
                    self.tcp_reader
                        .set_limit(self.max_packet_size as u64 - self.bytes.remaining() as u64);
                    if self.tcp_reader.read_buf(&mut self.bytes).await? == 0 {
''', '''                    let left = self.max_packet_size as u64 - self.bytes.remaining() as u64;
                    if left == 0 {
                        return Err(ServerError::MaxPacketSizeExceeded);
                    }
                    self.tcp_reader.set_limit(left);
                    let got = self.tcp_reader.read_buf(&mut self.bytes).await?;
                    if got == 0 {
'''))
r("c8", "client", (Q, '''        let mut bytes = BytesMut::with_capacity(p.frame_len());
        p.to_bytes(&mut bytes);
''', '''        let mut bytes = BytesMut::new();
        bytes.reserve(p.frame_len());
        p.to_bytes(&mut bytes);
'''))
r("c9", "client", (Q, '''                Ok(packet) => {
                    self.bytes.advance(packet.frame_len());
                    return Ok(packet);
                }
''', '''                Ok(packet) => {
                    let len = packet.frame_len();
                    self.bytes.advance(len);
                    return Ok(packet);
                }
'''))
r("c10", "client", (W, '''        let shutdown = self.internals.shutdown.clone();
        let killme = self.internals.killme.clone();
        tokio''', '''        let killme = Arc::clone(&self.internals.killme);
        let shutdown = Arc::clone(&self.internals.shutdown);
        tokio'''))
r("c11", "client", (W, '''            if let Err(e) = self.listen().await {
                info!(
                    clientid = &*self.internals.clientid,
                    "Disconnecting, received error while listening, {:?}", e
                );
                break;
            }
''', '''            match self.listen().await {
                Ok(()) => (),
                Err(e) => {
                    info!(
                        clientid = &*self.internals.clientid,
                        "Disconnecting, received error while listening, {:?}", e
                    );
                    return;
                }
            }
'''))
r("c12", "client", (W, '''                Property::MaximumPacketSize => {
                    self.internals.max_packet_size =
                        self.internals.max_packet_size.min(v.into_u32().unwrap())
                }
''', '''                Property::MaximumPacketSize => {
                    let wanted = v.into_u32().unwrap();
                    if wanted < self.internals.max_packet_size {
                        self.internals.max_packet_size = wanted;
                    }
                }
'''))
# -------------------------------------------------------------------------------------------- whole
r("w1", "whole", (M, '''                let current = match clients.get(&client.clientid) {
                    Some(c) => c.same_connection(&client),
                    None => false,
                };
''', '''                let current = clients
                    .get(&client.clientid)
                    .map(|c| c.same_connection(&client))
                    .unwrap_or(false);
'''))
r("w2", "whole", (M, '''        let worker = match maybe_worker {
            Some(worker) => worker,
            None => {
                warn!("All ClientWorker Tx halves has been dropped which is means server is shutting down or this is an internal bug,");
                return false;
            }
        };
''', '''        let worker = if let Some(worker) = maybe_worker {
            worker
        } else {
            warn!("All ClientWorker Tx halves has been dropped which is means server is shutting down or this is an internal bug,");
            return false;
        };
'''))
r("w3", "whole", (M, '''        while self.workers.next().await.is_some() {
            // wait for all workers to yeield
        }
''', '''        while let Some(_) = self.workers.next().await {
            // wait for all workers to yeield
        }
'''))
r("w4", "whole", (M, '''        let taken_over = self.clients.write().await.insert(id, client);
        if let Some(client) = taken_over {
            // there is only one connection per client identifier, the latest one
            client.killme();
        }
''', '''        match self.clients.write().await.insert(id, client) {
            // there is only one connection per client identifier, the latest one
            Some(client) => client.killme(),
            None => (),
        }
'''))
r("w5", "whole", (M, '''            Some(Ok(client)) => {
                let mut clients = self.clients.write().await;
                // another connection might have taken over the client identifier
                let current = match clients.get(&client.clientid) {
                    Some(c) => c.same_connection(&client),
                    None => false,
                };
                if current {
                    clients.remove(&client.clientid);
                }
            }
''', '''            Some(Ok(client)) => {
                let mut clients = self.clients.write().await;
                if let Some(c) = clients.get(&client.clientid) {
                    if c.same_connection(&client) {
                        clients.remove(&client.clientid);
                    }
                }
            }
'''))
r("w6", "whole", (L, '''        for worker in self.workers {
            if let Err(e) = worker.await {
                error!("Failed killing one of the workers, {:?}", e);
            };
        }
''', '''        for worker in self.workers.into_iter() {
            match worker.await {
                Ok(()) => (),
                Err(e) => error!("Failed killing one of the workers, {:?}", e),
            }
        }
'''))
r("w7", "whole", (L, '''        self.clients.read().await.keys().cloned().collect()
''', '''        let clients = self.clients.read().await;
        clients.keys().cloned().collect()
'''))
r("w8", "whole", (M, '''            if self.workers.is_empty() {
                let w = self.rx.recv().await;
                if !self.process_new_worker(w).await {
                    break;
                }
            }
''', '''            if self.workers.is_empty() {
                let w = self.rx.recv().await;
                let more = self.process_new_worker(w).await;
                if !more {
                    return;
                }
            }
'''))
r("w9", "whole", (Q, '''            if let Err(e) = self.listen().await {
                error!("Error listening to new connections, {:?}", e);
            }
''', '''            let res = self.listen().await;
            if let Err(e) = res {
                error!("Error listening to new connections, {:?}", e);
            }
'''))
r("w10", "whole", (Q, '''    let saddr = format!("{}", saddr);
    match state {
        ConnectState::Success => info!(SocketAddr = &*saddr, "MQTT Connection established"),
        ConnectState::ShuttingDown => {
            // the notice is for every task, so pass it on
            shutdown.notify_one();
            info!(SocketAddr = &*saddr, "Shutting down");
            return;
        }
        ConnectState::Err(e) => {
            warn!(
                SocketAddr = &*saddr,
                " Failed to establish MQTT connection, {:?}", e
            );
            return;
        }
    }
    if queue.send(client).is_err() {
        error!("MPSC channel for new connections is broken");
    }
''', '''    let saddr = format!("{}", saddr);
    match state {
        ConnectState::Success => {
            info!(SocketAddr = &*saddr, "MQTT Connection established");
            if queue.send(client).is_err() {
                error!("MPSC channel for new connections is broken");
            }
        }
        ConnectState::ShuttingDown => {
            info!(SocketAddr = &*saddr, "Shutting down");
            // the notice is for every task, so pass it on
            shutdown.notify_one();
        }
        ConnectState::Err(e) => warn!(
            SocketAddr = &*saddr,
            " Failed to establish MQTT connection, {:?}", e
        ),
    }
'''))
r("w11", "whole", (M, '''            let handle = ClientManager::incomming_mqtt_listener(
                &saddr,
                tx.clone(),
                shutdown.clone(),
                cfg.clone(),
                incoming.clone(),
            )
            .await?;
            workers.push(handle)
''', '''            workers.push(
                ClientManager::incomming_mqtt_listener(
                    &saddr,
                    tx.clone(),
                    shutdown.clone(),
                    cfg.clone(),
                    incoming.clone(),
                )
                .await?,
            )
'''))
# -------------------------------------------------------------------------------------------- codec
for k in ("puback", "pubrec", "pubrel", "pubcomp"):
    TY = {"puback": "PubAck", "pubrec": "PubRec", "pubrel": "PubRel", "pubcomp": "PubComp"}[k]
    r("k1" + k, "codec", (PK(k), f"        if length < {TY}::min_size() - MqttVariableBytesInt::min_size() {{", f"        let smallest = {TY}::min_size() - MqttVariableBytesInt::min_size();\n        if length < smallest {{"),
      (PK(k), "        self.packet_identifier.size() + self.reason_code.size() + self.props.size()", "        self.props.size() + self.reason_code.size() + self.packet_identifier.size()"))
r("k2", "codec", (PK("publish"), '''        self.topic_name.size()
            + self
                .packet_identifier
                .as_ref()
                .map(|i| i.size())
                .unwrap_or(0)
            + self.props.size()
            + self.payload.remaining()
''', '''        let id = match &self.packet_identifier {
            Some(i) => i.size(),
            None => 0,
        };
        self.topic_name.size() + id + self.props.size() + self.payload.len()
'''))
r("k3", "codec", (PK("publish"), '''        let packet_identifier = match flags.try_into()? {
            QoS::QoS0 => None,
            _ => Some(MqttTwoBytesInt::deserialize(&mut buf)?),
        };
''', '''        let qos: QoS = flags.try_into()?;
        let packet_identifier = if qos == QoS::QoS0 {
            None
        } else {
            Some(MqttTwoBytesInt::deserialize(&mut buf)?)
        };
'''))
r("k4", "codec", (PK("publish"), '''        Ok(Publish {
            flags,
            topic_name,
            packet_identifier,
            props,
            payload: buf.copy_to_bytes(buf.remaining()),
        })
''', '''        let payload = buf.copy_to_bytes(buf.remaining());
        Ok(Publish {
            flags,
            topic_name,
            packet_identifier,
            props,
            payload,
        })
'''))
r("k5", "codec", (PK("topic"), '''        if !is_valid_topic(&topic) {
            Err(DataParseError::BadTopic)
        } else {
            Ok(MqttTopic(MqttUtf8String::new(topic)?))
        }
''', '''        if is_valid_topic(&topic) {
            MqttUtf8String::new(topic).map(MqttTopic)
        } else {
            Err(DataParseError::BadTopic)
        }
'''))
r("k6", "codec", (PK("topic"), '''        if !is_valid_topic(string.inner()) {
            Err(DataParseError::BadTopic)
        } else {
            Ok(MqttTopic(string))
        }
''', '''        if !is_valid_topic(string.inner()) {
            return Err(DataParseError::BadTopic);
        }
        Ok(MqttTopic(string))
'''))
r("k7", "codec", (PK("topic"), '''fn is_valid_topic(topic: &str) -> bool {
    let mut iter = topic.chars().peekable();
    let mut prev = '/';
    while let Some(c) = iter.next() {
        match c {
            '#' => {
                // must be last character
                // previous character must be `/` or non existant
                if prev != '/' || iter.peek().is_some() {
                    return false;
                }
            }
            '+' => {
                if prev != '/' || *iter.peek().unwrap_or(&'/') != '/' {
                    return false;
                }
            }
            _ => (),
        }
        prev = c;
    }
    true
}
''', '''fn is_valid_topic(topic: &str) -> bool {
    let mut iter = topic.chars().peekable();
    let mut prev = '/';
    while let Some(c) = iter.next() {
        let next = iter.peek().copied();
        // wildcards occupy a whole level, `#` the last one
        if c == '#' && (prev != '/' || next.is_some()) {
            return false;
        }
        if c == '+' && (prev != '/' || next.unwrap_or('/') != '/') {
            return false;
        }
        prev = c;
    }
    true
}
'''))
r("k8", "codec", (PK("topic"), '''fn is_valid_topic(topic: &str) -> bool {
    let mut iter = topic.chars().peekable();
    let mut prev = '/';
    while let Some(c) = iter.next() {
        match c {
            '#' => {
                // must be last character
                // previous character must be `/` or non existant
                if prev != '/' || iter.peek().is_some() {
                    return false;
                }
            }
            '+' => {
                if prev != '/' || *iter.peek().unwrap_or(&'/') != '/' {
                    return false;
                }
            }
            _ => (),
        }
        prev = c;
    }
    true
}
''', '''fn is_valid_topic(topic: &str) -> bool {
    let mut levels = topic.split('/').peekable();
    while let Some(level) = levels.next() {
        let bad = match level {
            "#" => levels.peek().is_some(),
            "+" => false,
            l => l.contains('#') || l.contains('+'),
        };
        if bad {
            return false;
        }
    }
    true
}
'''))
r("k9", "codec", (PK("publish"), '''        if qos == QoS::QoS0 {
            // a QoS 0 publish must not carry a packet identifier
            self.packet_identifier = None;
        }
''', '''        match qos {
            // a QoS 0 publish must not carry a packet identifier
            QoS::QoS0 => self.packet_identifier = None,
            _ => (),
        }
'''))
r("k10", "codec", (PK("packet"), '''            Packet::ConnAck(p) => {
                let b = MqttOneBytesInt::new(
                    ((PacketType::ConnAck as u8) << 4) | PacketType::ConnAck.fixed_flags(),
                );
                b.serialize(buf);
                p.serialize(buf);
            }
''', '''            Packet::ConnAck(p) => {
                first_byte(PacketType::ConnAck).serialize(buf);
                p.serialize(buf);
            }
'''), (PK("packet"), "impl MqttSerialize for Packet {\n", '''fn first_byte(t: PacketType) -> MqttOneBytesInt {
    MqttOneBytesInt::new(((t as u8) << 4) | t.fixed_flags())
}
impl MqttSerialize for Packet {
'''))

r("k11", "codec", (PK("props"), '''        while size != 0 {
            let key = Property::deserialize(&mut buf)?;
            let (_, ty, _) = key.auxiliary_data();
            let value = MqttPropValue::deserialize(&mut buf, ty)?;
            size -= key.size() + value.size();
            table.insert(key, value)?;
        }
''', '''        while size > 0 {
            let key = Property::deserialize(&mut buf)?;
            let ty = key.auxiliary_data().1;
            let value = MqttPropValue::deserialize(&mut buf, ty)?;
            let used = key.size() + value.size();
            size -= used;
            table.insert(key, value)?;
        }
'''))
r("k12", "codec", (PK("props"), '''        while size != 0 {
            let key = Property::deserialize(&mut buf)?;
            let (_, ty, _) = key.auxiliary_data();
            let value = MqttPropValue::deserialize(&mut buf, ty)?;
            size -= key.size() + value.size();
            table.insert(key, value)?;
        }
''', '''        while buf.has_remaining() {
            let key = Property::deserialize(&mut buf)?;
            let (_, ty, _) = key.auxiliary_data();
            let value = MqttPropValue::deserialize(&mut buf, ty)?;
            table.insert(key, value)?;
        }
'''), (PK("props"), "        let mut size = MqttVariableBytesInt::deserialize(buf)?.inner() as usize;\n", '''        let size = MqttVariableBytesInt::deserialize(buf)?.inner() as usize;
        if buf.remaining() < size {
            return Err(DataParseError::InsufficientBuffer {
                needed: size,
                available: buf.remaining(),
            });
        }
'''))
r("k13", "codec", (PK("props"), '''            let old = self.props.insert(key, vec![value]);
            if let Some(v) = old.as_ref() {
                self.size -= v[0].size();
            } else {
                self.size += key.size();
            }
''', '''            let old = self.props.insert(key, vec![value]);
            match &old {
                Some(v) => self.size -= v[0].size(),
                None => self.size += key.size(),
            }
'''))
r("k14", "codec", (PK("props"), '''            let old = self.props.get_mut(&key);
            match old {
                Some(old) => old.push(value),
                None => drop(self.props.insert(key, vec![value])),
            }
''', '''            if let Some(old) = self.props.get_mut(&key) {
                old.push(value);
            } else {
                self.props.insert(key, vec![value]);
            }
'''))
r("k15", "codec", (PK("props"), "        self.props.get(&key).map(|v| v.as_ref())\n", "        let values = self.props.get(&key)?;\n        Some(values.as_slice())\n"))
r("k16", "codec", (PK("props"), "        self.valid & message == message\n", "        self.valid.contains(message)\n"))
r("k17", "codec", (PK("props"), '''        if let MqttPropValueInner::TwoBytesInt(i) = &self.0 {
            Some(i.inner())
        } else {
            None
        }
''', '''        match &self.0 {
            MqttPropValueInner::TwoBytesInt(i) => Some(i.inner()),
            _ => None,
        }
'''))
r("k18", "codec", (PK("props"), "            MqttPropValueInner::VarInt(i) => Some(i.inner()),\n            MqttPropValueInner::FourBytesInt(i) => Some(i.inner()),\n            _ => None,", "            MqttPropValueInner::FourBytesInt(i) => Some(i.inner()),\n            MqttPropValueInner::VarInt(i) => Some(i.inner()),\n            _ => None,"),
  (PK("props"), "        MqttPropValue(MqttPropValueInner::Bool(MqttOneBytesInt::new(if b {\n            1\n        } else {\n            0\n        })))", "        MqttPropValue(MqttPropValueInner::Bool(MqttOneBytesInt::new(b as u8)))"))
r("k19", "codec", (PK("props"), '''            MqttPropValueInner::Bool(v) => v.serialize(buf),
            MqttPropValueInner::Byte(v) => v.serialize(buf),
''', '''            MqttPropValueInner::Bool(v) | MqttPropValueInner::Byte(v) => v.serialize(buf),
'''), (PK("props"), '''            MqttPropValueInner::Bool(_) => 1,
            MqttPropValueInner::Byte(_) => 1,
''', '''            MqttPropValueInner::Bool(v) => v.size(),
            MqttPropValueInner::Byte(v) => v.size(),
'''))
r("k20", "codec", (PK("data"), '''        match s.find(|c: char| c.is_control() || c == '\\u{0000}') {
            None => Ok(()),
            Some(_) => Err(DataParseError::BadMqttUtf8String),
        }
''', '''        if s.chars().any(|c| c.is_control()) {
            return Err(DataParseError::BadMqttUtf8String);
        }
        Ok(())
'''))
r("k21", "codec", (PK("data"), '''        let mut x = self.i;
        loop {
            let mut encoded_byte = (x & 0x7f) as u8; // same as x = x%128 but sans the mod part
            x >>= 7; // same as x = x / 128 but faster
            if x > 0 {
                encoded_byte |= 0x80;
            }
            buf.put_u8(encoded_byte);
            if x == 0 {
                break;
            }
        }
''', '''        let mut x = self.i;
        while x > 0x7f {
            buf.put_u8((x & 0x7f) as u8 | 0x80);
            x >>= 7;
        }
        buf.put_u8(x as u8);
'''))
r("k22", "codec", (PK("data"), '''            let mut encoded_byte = (x & 0x7f) as u8; // same as x = x%128 but sans the mod part
            x >>= 7; // same as x = x / 128 but faster
            if x > 0 {
                encoded_byte |= 0x80;
            }
            buf.put_u8(encoded_byte);
''', '''            let low = (x & 0x7f) as u8;
            x >>= 7;
            let encoded_byte = if x > 0 { low | 0x80 } else { low };
            buf.put_u8(encoded_byte);
'''))
r("k23", "codec", (PK("data"), '''        let mut multiplier: u32 = 0;
        let mut value = 0;
        let mut remaining = buf.remaining();
        loop {
            if remaining == 0 {
''', '''        let mut multiplier: u32 = 0;
        let mut value = 0;
        loop {
            if !buf.has_remaining() {
'''), (PK("data"), "            remaining -= 1;\n", ""))
r("k24", "codec", (PK("data"), '''        if self.i < 0x80 {
            1
        } else if self.i < 0x4000 {
            2
        } else if self.i < 0x200000 {
            3
        } else {
            4
        }
''', '''        match self.i {
            0..=0x7f => 1,
            0x80..=0x3fff => 2,
            0x4000..=0x1fffff => 3,
            _ => 4,
        }
'''))
r("k25", "codec", (PK("data"), '''        let bytes = buf.copy_to_bytes(len);
        let s = std::str::from_utf8(&bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
        MqttUtf8String::new(Arc::from(s))
''', '''        let bytes = buf.copy_to_bytes(len);
        match std::str::from_utf8(&bytes) {
            Ok(s) => MqttUtf8String::new(Arc::from(s)),
            Err(_) => Err(DataParseError::BadMqttUtf8String),
        }
'''))
r("k26", "codec", (PK("data"), '''        if s.remaining() > 65535 {
            return Err(DataParseError::BadMqttBinaryData);
        }
        Ok(())
''', '''        if s.len() <= u16::MAX as usize {
            Ok(())
        } else {
            Err(DataParseError::BadMqttBinaryData)
        }
'''))
r("k27", "codec", (PK("connect"), '''            + self.will_info.as_ref().map(|w| w.size()).unwrap_or(0)
            + self.username.as_ref().map(|u| u.size()).unwrap_or(0)
            + self.password.as_ref().map(|p| p.size()).unwrap_or(0)
''', '''            + self.will_info.as_ref().map_or(0, |w| w.size())
            + self.username.as_ref().map_or(0, |u| u.size())
            + self.password.as_ref().map_or(0, |p| p.size())
'''))
r("k28", "codec", (PK("connect"), '''        if let Some(will) = self.will_info.as_ref() {
            will.serialize(buf);
        }
''', '''        if let Some(will) = &self.will_info {
            will.serialize(buf);
        }
'''), (PK("connect"), '''        if let Some(username) = self.username.as_ref() {
            username.serialize(buf);
        }
''', '''        match &self.username {
            Some(username) => username.serialize(buf),
            None => (),
        }
'''))
r("k29", "codec", (PK("connect"), '''        let username = if flags.contains(ConnectFlags::USERNAME) {
            Some(MqttUtf8String::deserialize(&mut buf)?)
        } else {
            None
        };
''', '''        let mut username = None;
        if flags.contains(ConnectFlags::USERNAME) {
            username = Some(MqttUtf8String::deserialize(&mut buf)?);
        }
'''), (PK("connect"), '''        if packet.partial_size() == length {
            Ok(packet)
        } else {
            Err(DataParseError::BadConnectMessage)
        }
''', '''        if packet.partial_size() != length {
            return Err(DataParseError::BadConnectMessage);
        }
        Ok(packet)
'''))
r("k30", "codec", (PK("connect"), '''        let props = Properties::deserialize(buf)?;
        if props.is_valid_for(PropOwner::WILL) {
            Ok(Will {
                props,
                topic: MqttUtf8String::deserialize(buf)?,
                payload: MqttBinaryData::deserialize(buf)?,
            })
        } else {
            Err(DataParseError::BadProperty)
        }
''', '''        let props = Properties::deserialize(buf)?;
        if !props.is_valid_for(PropOwner::WILL) {
            return Err(DataParseError::BadProperty);
        }
        let topic = MqttUtf8String::deserialize(buf)?;
        let payload = MqttBinaryData::deserialize(buf)?;
        Ok(Will { props, topic, payload })
'''))
r("k31", "codec", (PK("connect"), '''        if self.contains(ConnectFlags::WILL_QOS1 | ConnectFlags::WILL_QOS2) {
            return Err(DataParseError::BadQoS);
        }
        match self & (ConnectFlags::WILL_QOS1 | ConnectFlags::WILL_QOS2) {
            ConnectFlags::WILL_QOS1 => Ok(QoS::QoS1),
            ConnectFlags::WILL_QOS2 => Ok(QoS::QoS2),
            ConnectFlags::NO_FLAGS => Ok(QoS::QoS0),
            _ => unreachable!(),
        }
''', '''        let one = self.contains(ConnectFlags::WILL_QOS1);
        let two = self.contains(ConnectFlags::WILL_QOS2);
        match (one, two) {
            (true, true) => Err(DataParseError::BadQoS),
            (true, false) => Ok(QoS::QoS1),
            (false, true) => Ok(QoS::QoS2),
            (false, false) => Ok(QoS::QoS0),
        }
'''))
r("k32", "codec", (PK("subscribe"), '''        let mut topics = Vec::new();
        while buf.remaining() != 0 {
            let topic = MqttTopic::deserialize(&mut buf)?;
            // we cannot do unchecked deserialize here because it is proceeded by deserialization
            // of variable length field
            let options = SubscriptionOptions::deserialize(&mut buf)?;
            topics.push((topic, options));
        }
        if topics.is_empty() {
            Err(DataParseError::BadSubscribeMessage)
        } else {
            Ok(Subscribe {
                packet_identifier,
                props,
                topics,
            })
        }
''', '''        let mut topics = vec![];
        while buf.has_remaining() {
            topics.push((
                MqttTopic::deserialize(&mut buf)?,
                SubscriptionOptions::deserialize(&mut buf)?,
            ));
        }
        if topics.is_empty() {
            return Err(DataParseError::BadSubscribeMessage);
        }
        Ok(Subscribe {
            packet_identifier,
            props,
            topics,
        })
'''))
r("k33", "codec", (PK("subscribe"), '''        for (k, v) in &self.topics {
            k.serialize(buf);
            v.serialize(buf);
        }
''', '''        for (k, v) in self.topics.iter() {
            k.serialize(buf);
            v.serialize(buf);
        }
'''), (PK("subscribe"), '''        let _: QoS = options.try_into()?;
        let _: RetainHandling = options.try_into()?;
        let topic = MqttTopic::new(topic)?;
''', '''        let topic = MqttTopic::new(topic)?;
        let _: RetainHandling = options.try_into()?;
        let _: QoS = options.try_into()?;
'''))
r("k34", "codec", (PK("subscribe"), '''                .iter()
                .map(|(k, v)| k.size() + v.size())
                .sum::<usize>()
''', '''                .iter()
                .fold(0, |n, (k, v)| n + k.size() + v.size())
'''))
r("k35", "codec", (PK("packet"), '''        if buf.remaining() < 2 {
            return Err(DataParseError::InsufficientBuffer {
                needed: 2,
                available: buf.remaining(),
            });
        }
''', '''        let available = buf.remaining();
        if available < 2 {
            return Err(DataParseError::InsufficientBuffer {
                needed: 2,
                available,
            });
        }
'''))

CREATE = '''        if !self.contains_subtopic(subtopic).await {
            // another subscription may have created it in the meantime, that
            // block must not be replaced: it may have subscribers already
            self.write()
                .await
                .sub_blocks
                .entry(Arc::from(subtopic))
                .or_insert_with(Block::new);
        }
'''
r("u1", "topics", (T, CREATE, '''        let mut inner = self.write().await;
        if !inner.sub_blocks.contains_key(subtopic) {
            inner.sub_blocks.insert(Arc::from(subtopic), Block::new());
        }
'''))
r("u2", "topics", (T, CREATE, '''        if !self.contains_subtopic(subtopic).await {
            let mut inner = self.write().await;
            if !inner.sub_blocks.contains_key(subtopic) {
                inner.sub_blocks.insert(Arc::from(subtopic), Block::new());
            }
        }
'''))
r("u3", "topics", (T, "        self.subscribers.write().await.insert(clientid, info);\n", '''        let mut table = self.subscribers.write().await;
        table.insert(clientid, info);
'''), (T, "        self.hash_wildcard.write().await.remove(&clientid);\n", '''        let mut table = self.hash_wildcard.write().await;
        table.remove(&clientid);
'''))
r("u4", "topics", (T, '''        if let Some(topics) = self.reverse_index_remove_all(&clientid).await {
            for topic in topics {
                self.topic_remove(clientid.clone(), &topic).await
            }
        }
''', '''        let topics = match self.reverse_index_remove_all(&clientid).await {
            Some(topics) => topics,
            None => return,
        };
        for topic in topics.iter() {
            self.topic_remove(clientid.clone(), topic).await;
        }
'''))
r("u5", "topics", (T, '''                if is_hash {
                    block
                        .read()
                        .await
                        .insert_into_hash(clientid, qos, flags)
                        .await;
                } else {
                    block
                        .read()
                        .await
                        .insert_into_subs(clientid, qos, flags)
                        .await;
                }
''', '''                let inner = block.read().await;
                if is_hash {
                    inner.insert_into_hash(clientid, qos, flags).await
                } else {
                    inner.insert_into_subs(clientid, qos, flags).await
                }
'''))
r("u6", "topics", (T, CREATE, '''        if self.contains_subtopic(subtopic).await {
            return;
        }
        let mut inner = self.write().await;
        inner.sub_blocks.entry(Arc::from(subtopic)).or_insert_with(|| Block::new());
'''))
r("u7", "topics", (T, '''                if create {
                    self.create_if_not_existing(section).await;
                }
                let raii = self.read().await;
                if let Some(sub_block) = raii.sub_blocks.get(section) {
                    sub_block.visit(sections, create, run).await;
                }
''', '''                if create {
                    self.create_if_not_existing(section).await;
                }
                let inner = self.read().await;
                match inner.sub_blocks.get(section) {
                    Some(next) => next.visit(sections, create, run).await,
                    None => trace!("nothing at {}", section),
                }
'''))
r("u8", "topics", (T, '''        let mut raii = self.reverse_index.write().await;
        let mut cleanup = false;
        if let Some(set) = raii.get_mut(clientid) {
            set.remove(topic);
            cleanup = set.is_empty();
        }
        if cleanup {
            raii.remove(clientid);
        }
''', '''        let mut index = self.reverse_index.write().await;
        if let Entry::Occupied(mut e) = index.entry(Arc::from(clientid)) {
            e.get_mut().remove(topic);
            if e.get().is_empty() {
                e.remove();
            }
        }
'''))
r("u9", "topics", (T, '''        let raii = self.read().await;
        raii.collect_hash_wildcard(subs).await;
        if let Some(section) = sections.next() {
''', '''        let next = sections.next();
        let raii = self.read().await;
        raii.collect_hash_wildcard(subs).await;
        if let Some(section) = next {
'''))
r("u10", "topics", (T, '''        self.topics_add(clientid.clone(), &topic, qos, flags).await;
        self.reverse_index_add(clientid, topic).await;
''', '''        let id = clientid.clone();
        self.topics_add(id, topic.as_ref(), qos, flags).await;
        self.reverse_index_add(clientid, topic).await;
'''))
def main():
    ids = sys.argv[1:]
    os.makedirs("/tmp/refac/build", exist_ok=True)
    if not os.path.isdir(WT):
        subprocess.check_call(["git", "clone", "-q", "/repo", WT])
    check.REPO, check.BUILD = WT, "/tmp/refac/build"
    check.build_extractor()
    for id, part, edits in R:
        if ids and id not in ids and part not in ids:
            continue
        subprocess.check_call("git fetch -q origin && git reset -q --hard origin/HEAD && git clean -qfd", shell=True, cwd=WT)
        ok = True
        for f, old, new in edits:
            s = open(f"{WT}/{f}").read()
            if not s.count(old):
                print(id, "EDIT not found in", f); ok = False; break
            open(f"{WT}/{f}", "w").write(s.replace(old, new))
        if not ok:
            continue
        p = subprocess.run("cargo check -q --offline --workspace --all-features 2>&1 | grep -A7 '^error' | head -30", shell=True, cwd=WT, env={**os.environ, "CARGO_TARGET_DIR": "/tmp/refac/target"}, stdout=subprocess.PIPE, text=True)
        if p.stdout.strip():
            print(id, "DOES NOT COMPILE\n", p.stdout); continue
        for pt in {"topics": ["topics", "shared"], "dispatcher": ["dispatcher"], "client": ["client"], "whole": ["whole"], "codec": ["codec"]}[part]:
            mp, xerr = check.extract(pt)
            if xerr:
                print(id, pt, "shifted: extraction:", xerr[:300], flush=True); continue
            v = check.verus(pt, 330, without=("roundtrip",))
            failed, und, struct = check.classify(v, mp)
            if not (failed or und or struct or mp.notes):
                print(id, pt, "proved", f"{v['wall']:.0f} s", flush=True)
            elif mp.notes or struct or und:
                print(id, pt, "shifted:", [x[:260] for x in (mp.notes + struct + und)[:2]], "| failed", [x[1][:160] for x in failed[:2]], flush=True)
            else:
                print(id, pt, "ALARM", [x[1][:400] + str(x[2]) for x in failed[:4]], flush=True)
if __name__ == "__main__":
    main()
