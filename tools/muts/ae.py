A="ae/ae.go"
SKIP="""		if el.fileEventMap[getFileEventMapKey(fe.fd, fe.mask)] != fe {
			continue
		}

"""
SKIPC="		// skip the event if a previous handler has removed it\n"
W="timeout := el.getNearestTime(defaultNearestDeltaMs) - now()"
MUTS=[
("noskip","C28",1,[(A,SKIPC+SKIP,"")]),
("skipnil","C28",1,[(A,SKIP,"""		if el.fileEventMap[getFileEventMapKey(fe.fd, fe.mask)] == nil {
			continue
		}

""")]),
("inout","C16",1,[(A,"[]uint32{syscall.EPOLLOUT, syscall.EPOLLIN}","[]uint32{syscall.EPOLLIN, syscall.EPOLLOUT}")]),
("elsebit","C28",1,[(A,"for _, epollEventType := range epollEventTypes {","for _, epollEventType := range epollEventTypes[:1] {")]),
("oneonly","C28",0,[(A,"					fileEvents = append(fileEvents, fileEvent)\n","					fileEvents = append(fileEvents, fileEvent)\n					if len(fileEvents) >= 1 {\n						break\n					}\n")]),
("et","C28",1,[(A,"	ev |= getEpollEventType(mask)\n","	ev |= getEpollEventType(mask) | 1<<31\n")]),
("addop","C28",1,[(A,"""	ev := el.getEpollEventMask(fd)
	if ev != 0 {
		op = syscall.EPOLL_CTL_MOD
	}

	ev |=""","""	ev := el.getEpollEventMask(fd)
	if ev&syscall.EPOLLIN != 0 {
		op = syscall.EPOLL_CTL_MOD
	}

	ev |=""")]),
("addmask","C28",1,[(A,"	ev |= getEpollEventType(mask)\n","	ev = getEpollEventType(mask)\n")]),
("delop","C28",1,[(A,"	ev &= ^getEpollEventType(mask) // clear mask which type will be removed\n","	ev &= ^getEpollEventType(TypeFileEventWritable) // clear mask which type will be removed\n")]),
("mapfirst","C28",1,[(A,"	op := syscall.EPOLL_CTL_DEL\n	ev := el.getEpollEventMask(fd)\n","	op := syscall.EPOLL_CTL_DEL\n	ev := el.getEpollEventMask(fd)\n	delete(el.fileEventMap, fileEventMapKey)\n")]),
("delerr","C28",1,[(A,"""		return errors.Wrap(err, "epoll ctl failed")
	}

	delete(""","""		delete(el.fileEventMap, fileEventMapKey)

		return errors.Wrap(err, "epoll ctl failed")
	}

	delete(""")]),
("shift1","C28",1,[(A,"int(fd)<<16 | int(mask)","int(fd)<<1 | int(mask)")]),
("evtype","C28",1,[(A,"	case syscall.EPOLLOUT:\n		return TypeFileEventWritable\n","	case syscall.EPOLLOUT:\n		return TypeFileEventReadable\n")]),
("wrongdata","C28",1,[(A,"fe.proc(el, fe.fd, fe.clientData)","fe.proc(el, fe.fd, fileEvents[0].clientData)")]),
("due","C29",1,[(A,"if te.when <= nowMs {","if te.when < nowMs+5 {")]),
("duelt","C29",1,[(A,"if te.when <= nowMs {","if te.when < nowMs {")]),
("wheninc","C29",1,[(A,"te.when = now() + te.interval","te.when += te.interval")]),
("onceall","C29",1,[(A,"if te.mask == TypeTimeEventOnce {","if te.mask == TypeTimeEventNormal {")]),
("near","C29",1,[(A,"		if te.when < nearest {\n","		if te.when > nearest {\n")]),
("nearfirst","C29",1,[(A,"			nearest = te.when\n","			nearest = te.when\n\n			break\n")]),
("timeoutneg","C29",1,[(A,"	if timeout <= 0 {\n		timeout = defaultEpollWaitMs\n","	if timeout <= 0 {\n		timeout = -1\n")]),
("addnow","C29",1,[(A,"when:       now() + interval,","when:       interval,")]),
("idnot","C29",1,[(A,"	el.timeEventNextID++\n","")]),
("idlen","C29",1,[(A,"id:         el.timeEventNextID,","id:         int64(el.timeEventHead.Len()),")]),
("removebreak","C29",1,[(A,"		if te.id == id {","		if te.id >= id {")]),
("eintr","C16",1,[(A,"""		if el.beforeSleep != nil {
			el.beforeSleep(el)
		}

		timeEvents, fileEvents, err := el.wait()
""","""		timeEvents, fileEvents, err := el.wait()
		if len(fileEvents) == 0 && el.beforeSleep != nil {
			el.beforeSleep(el)
		}
""")]),
("bsonce","C16",1,[(A,"	for !el.stop {\n		if el.beforeSleep != nil {\n			el.beforeSleep(el)\n		}\n","	if el.beforeSleep != nil {\n		el.beforeSleep(el)\n	}\n	for !el.stop {\n")]),
("exiterr","C29",1,[(A,"			log.Println(\"wait failed:\", err)\n","			log.Println(\"wait failed:\", err)\n\n			break\n")]),
("timercont","C29",0,[(A,"""				return errors.Wrapf(err, "failed to remove time event: %v", te)
""","""				return errors.Wrapf(err, "failed to remove time event: %v", te)
			}
			if te.interval == 0 {
				return nil
""")]),
("whenstart","C29",1,[(A,"""	for _, te := range timeEvents {
		te.proc(el, te.id, te.clientData)
""","""	start := now()
	for _, te := range timeEvents {
		te.proc(el, te.id, te.clientData)
"""),(A,"te.when = now() + te.interval","te.when = start + te.interval")]),
# refactorings
("r-keyfn","C28 C29 C16",0,[(A,"	return int(fd)<<16 | int(mask)","	k := int(fd) << 16\n	k |= int(mask)\n\n	return k")]),
("r-bits","C28 C29 C16",0,[(A,"""		for _, epollEventType := range epollEventTypes {
			if ev.Events&epollEventType != 0 {
				fileEvent, ok := el.fileEventMap[getFileEventMapKey(socket.FD(ev.Fd), getFileEventType(epollEventType))]
				if ok {
					fileEvents = append(fileEvents, fileEvent)
				}
			}
		}
""","""		for j := 0; j < len(epollEventTypes); j++ {
			bit := epollEventTypes[j]
			if ev.Events&bit == 0 {
				continue
			}
			if fileEvent := el.fileEventMap[getFileEventMapKey(socket.FD(ev.Fd), getFileEventType(bit))]; fileEvent != nil {
				fileEvents = append(fileEvents, fileEvent)
			}
		}
""")]),
("r-helper","C28 C29 C16",0,[(A,"""	var (
		timeEvents []*TimeEvent
		fileEvents []*FileEvent
	)

""","""	var fileEvents []*FileEvent

"""),(A,"""	nowMs := now()
	for e := el.timeEventHead.Front(); e != nil; e = e.Next() {
		te := e.Value.(*TimeEvent)
		if te.when <= nowMs {
			timeEvents = append(timeEvents, te)
		}
	}

	return timeEvents, fileEvents, nil
}
""","""	return el.collectDue(now()), fileEvents, nil
}

func (el *EventLoop) collectDue(nowMs int64) []*TimeEvent {
	var due []*TimeEvent
	for e := el.timeEventHead.Front(); e != nil; e = e.Next() {
		te := e.Value.(*TimeEvent)
		if te.when > nowMs {
			continue
		}

		due = append(due, te)
	}

	return due
}
""")]),
("r-split","C28 C29 C16",0,[(A,"	for _, te := range timeEvents {\n		te.proc(el, te.id, te.clientData)\n","	for i := 0; i < len(timeEvents); i++ {\n		te := timeEvents[i]\n		te.proc(el, te.id, te.clientData)\n"),
 (A,"""		if te.mask == TypeTimeEventOnce {
			if err := el.RemoveTimeEvent(te.id); err != nil {
				return errors.Wrapf(err, "failed to remove time event: %v", te)
			}
		} else {
			te.when = now() + te.interval
		}
""","""		if te.mask != TypeTimeEventOnce {
			te.when = now() + te.interval

			continue
		}

		if err := el.RemoveTimeEvent(te.id); err != nil {
			return errors.Wrapf(err, "failed to remove time event: %v", te)
		}
""")]),
("r-min","C28 C29 C16",0,[(A,"""		if te.when < nearest {
			nearest = te.when
		}
""","""		if te.when >= nearest {
			continue
		}

		nearest = te.when
""")]),
("r-near","C28 C29 C16",0,[(A,"""	timeout := el.getNearestTime(defaultNearestDeltaMs) - now()
	if timeout <= 0 {
		timeout = defaultEpollWaitMs
	}
""","""	nearest := el.getNearestTime(defaultNearestDeltaMs)
	timeout := int64(defaultEpollWaitMs)
	if d := nearest - now(); d > 0 {
		timeout = d
	}
""")]),
("r-addhelper","C28 C29 C16",0,[(A,"""	ev |= getEpollEventType(mask)
	if err := syscall.EpollCtl(el.fileEventFd, op, int(fd), &syscall.EpollEvent{Events: ev, Fd: int32(fd)}); err != nil {
		return errors.Wrap(err, "epoll ctl failed")
	}
""","""	if err := el.ctl(op, fd, ev|getEpollEventType(mask)); err != nil {
		return err
	}
"""),(A,"""	if err := syscall.EpollCtl(el.fileEventFd, op, int(fd), &syscall.EpollEvent{Events: ev, Fd: int32(fd)}); err != nil {
		return errors.Wrap(err, "epoll ctl failed")
	}

	delete""","""	if err := el.ctl(op, fd, ev); err != nil {
		return err
	}

	delete"""),(A,"// SetBeforeSleepProc sets","""func (el *EventLoop) ctl(op int, fd socket.FD, events uint32) error {
	ev := syscall.EpollEvent{Events: events, Fd: int32(fd)}
	err := syscall.EpollCtl(el.fileEventFd, op, int(fd), &ev)
	if err != nil {
		return errors.Wrap(err, "epoll ctl failed")
	}

	return nil
}

// SetBeforeSleepProc sets""")]),
("r-main","C28 C29 C16",0,[(A,"""	for !el.stop {
		if el.beforeSleep""","""	for {
		if el.stop {
			break
		}

		if el.beforeSleep""")]),
("r-pushback","C28 C29 C16",0,[(A,"el.timeEventHead.PushFront(&TimeEvent{","el.timeEventHead.PushBack(&TimeEvent{")]),
("r-masktable","C28 C29 C16",0,[(A,"""	switch fileEventType {
	case TypeFileEventReadable:
		return syscall.EPOLLIN
	case TypeFileEventWritable:
		return syscall.EPOLLOUT
	default:
		return 0
	}
""","""	var ev uint32
	if fileEventType&TypeFileEventReadable != 0 {
		ev |= syscall.EPOLLIN
	}
	if fileEventType&TypeFileEventWritable != 0 {
		ev |= syscall.EPOLLOUT
	}

	return ev
""")]),
("r-andnot","C28 C29 C16",0,[(A,"	ev &= ^getEpollEventType(mask) //","	ev &^= getEpollEventType(mask) //")]),
("r-el2","C28 C29 C16",0,[(A,"	if _, ok := el.fileEventMap[fileEventMapKey]; ok {\n		return errors.New(\"file event already","	if el.fileEventMap[fileEventMapKey] != nil {\n		return errors.New(\"file event already")]),
("r-removeloop","C28 C29 C16",0,[(A,"""	for e := el.timeEventHead.Front(); e != nil; e = e.Next() {
		te := e.Value.(*TimeEvent)
		if te.id == id {
			el.timeEventHead.Remove(e)

			return nil
		}
	}

	return errors.New("time event not exists")
""","""	e := el.timeEventHead.Front()
	for e != nil && e.Value.(*TimeEvent).id != id {
		e = e.Next()
	}

	if e == nil {
		return errors.New("time event not exists")
	}

	el.timeEventHead.Remove(e)

	return nil
""")]),
("r-current","C28 C29 C16",0,[(A,"		if el.fileEventMap[getFileEventMapKey(fe.fd, fe.mask)] != fe {\n			continue\n		}\n\n		fe.proc(el, fe.fd, fe.clientData)\n","		if el.isCurrent(fe) {\n			fe.proc(el, fe.fd, fe.clientData)\n		}\n"),(A,"","\nfunc (el *EventLoop) isCurrent(fe *FileEvent) bool {\n	cur, ok := el.fileEventMap[getFileEventMapKey(fe.fd, fe.mask)]\n\n	return ok && cur == fe\n}\n")]),
]
