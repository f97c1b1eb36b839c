exec(open("/verif/tools/seeds/srvpre.py").read())
SEEDS = [
 dict(id="s01", property="S11", edits=[("server/internal/message/sub.go", "	stat, exists := s.stats[key]\n	if !exists {\n		stat = &Stat{\n			ID:    id,\n			Topic: topic,\n		}\n	}\n", "	stat, exists := s.stats[key]\n	if !exists {\n		stat = &Stat{}\n	}\n	stat.ID, stat.Topic = id, topic\n")],
  needs="the same topic subscribed twice and unsubscribed twice by one connection, then a publish",
  breaks="the stored subscription is deleted under the identifier of the second request, so messages are still delivered after the unsubscribe",
  demo=PRE+'''
func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	id := ident(t, 7)
	a, b := dial(t, s, id, true, nil), dial(t, s, id, true, nil)
	a.subscribe(0, 0, "x/a.b")
	a.subscribe(0, 0, "x/a.b")
	b.publish(0, "x/a.b", "one")
	a.unsubscribe("x/a.b")
	a.unsubscribe("x/a.b")
	b.publish(0, "x/a.b", "two")
	if a.count("a.b=one") != 1 || a.count("a.b=two") != 0 {
		t.Fatal(a.got)
	}
}
'''),
 dict(id="s02", property="S16", edits=[("server/internal/conn.go", "		msg.Delay = int32(uid.LID(binary.LittleEndian.Uint32(subscription[5:9])))\n", "		if delay := int32(binary.LittleEndian.Uint32(subscription[5:9])); delay > 0 {\n			msg.Delay = delay\n		}\n")],
  needs="two subscribers of one topic, the newer of them with a delay",
  breaks="the delay of one subscription is also applied to the subscriptions found after it",
  demo=PRE+'''
func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	id := ident(t, 7)
	a, b, c := dial(t, s, id, true, nil), dial(t, s, id, true, nil), dial(t, s, id, true, nil)
	a.subscribe(0, 0, "x/a.b")
	b.subscribe(0, 3000, "x/a.b")
	a.subscribe(0, 0, "y/a.*")
	c.publish(0, "x/a.b", "one")
	wait()
	if a.count("a.b=one") != 2 {
		t.Fatal("not delivered at once: ", a.got)
	}
}
'''),
 dict(id="s03", property="S15", edits=[("server/internal/hdl_conn.go", "	case utp.FLOWCONTROL:\n		// Persist incoming\n		c.storeInbound(inMsg)\n\n		ctrlMsg := *inMsg.(*utp.ControlMessage)\n", "	case utp.FLOWCONTROL:\n		ctrlMsg := *inMsg.(*utp.ControlMessage)\n		// Persist incoming, there is nothing to resend of a message that is complete\n		if ctrlMsg.FlowControl == utp.RECEIPT && store.Log.Get(uint64(ctrlMsg.MessageID)<<32+uint64(c.connID)) != nil {\n			c.storeInbound(inMsg)\n		}\n"),
   ("server/internal/hdl_conn.go", "			c.storeOutbound(comp)\n", "			store.Log.PersistOutbound(uint32(c.connID), comp)\n")],
  needs="a reliable message announced to a session that is resumed, confirmed on the new connection, and a second resume",
  breaks="the confirmed message is announced again on every later resume",
  demo=PRE+'''
func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	id := ident(t, 7)
	key := func(m *utp.Connect) { m.SessKey = 5 }
	p := dial(t, s, id, true, func(m *utp.Connect) { m.SessKey = 9 })
	a := dial(t, s, id, false, key)
	a.subscribe(1, 0, "x/a.b")
	p.publish(1, "x/a.b", "one")
	if len(a.told()) != 1 {
		t.Fatal("not announced")
	}
	a.c.Close()
	wait()
	a = dial(t, s, id, true, key)
	if len(a.told()) != 1 || a.count("a.b=one") != 1 {
		t.Fatal("not resumed")
	}
	wait()
	a.c.Close()
	wait()
	a = dial(t, s, id, false, key)
	if len(a.told()) != 0 {
		t.Fatal("announced after it was confirmed")
	}
}
'''),
 dict(id="s04", property="S17", edits=[("server/internal/hdl_conn.go", "		for _, req := range m.RelayRequests {\n			if err := c.onRelay(req); err != nil {\n				status = err.Status\n				c.notifyError(err, m.MessageID)\n				continue\n			}\n		}\n", "		for _, req := range m.RelayRequests {\n			if err := c.onRelay(req); err != nil {\n				status = err.Status\n				c.notifyError(err, m.MessageID)\n				break\n			}\n		}\n")],
  needs="a relay request for two topics, the first of which is refused",
  breaks="the messages of the second topic are not relayed",
  demo=PRE+'''
func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	id := ident(t, 7)
	a := dial(t, s, id, true, func(m *utp.Connect) { m.InsecureFlag = false })
	p := dial(t, s, id, true, nil)
	p.publish(0, "x/a.b", "one")
	p.publish(0, "x/c.d", "two")
	key, err := security.GenerateKey(7, "c.d", security.AllowReadWrite)
	if err != nil {
		t.Fatal(err)
	}
	time.Sleep(1100 * time.Millisecond)
	a.relay("1h", "bad/a.b", key+"/c.d")
	time.Sleep(400 * time.Millisecond)
	if a.count("c.d=two") != 1 || a.count("a.b=one") != 0 {
		t.Fatal(a.got)
	}
}
'''),
 dict(id="s05", property="S13", edits=[("server/internal/conn.go", "		// Decrement the subscription counter\n		c.service.meter.Subscriptions.Dec(1)\n	}\n	if !unsubMsg", "	}\n	// Decrement the subscription counter\n	c.service.meter.Subscriptions.Dec(1)\n	if !unsubMsg")],
  needs="an unsubscribe of a topic that is not, or repeatedly, subscribed",
  breaks="the number of subscriptions is too small",
  demo=PRE+'''
func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	id := ident(t, 7)
	a := dial(t, s, id, true, nil)
	a.subscribe(0, 0, "x/a.b")
	a.subscribe(0, 0, "x/a.b")
	a.subscribe(0, 0, "x/c")
	a.unsubscribe("x/a.b")
	v, err := s.varz()
	if err != nil || v.Subscriptions != 2 {
		t.Fatal(v.Subscriptions, err)
	}
}
'''),
]
