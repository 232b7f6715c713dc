PROP='P11'
NEEDS='two takers that wait for a tag and two tags that are returned before the first taker runs'
BREAKS='the blocking pool wakes up a taker only if it was empty, the second taker waits forever next to a free tag'
PKG='tagstack'
EDITS=[('tagstack/tagstack.go',[('''	stackC   chan uint32
''','''	notEmpty *sync.Cond
'''),('''	s := TagStack{
		stackC:   make(chan uint32, depth),
		blocking: true,
	}

	for i := 0; i < depth; i++ {
		s.stackC <- uint32(i)
	}

	return &s
''','''	s := New(depth)
	s.blocking = true
	s.notEmpty = sync.NewCond(&s.Mutex)

	return s
'''),('''	if s.blocking {
		s.stackC <- x
		return nil
	}

	s.Lock()
	defer s.Unlock()

	if s.at < len(s.stack) {
		s.stack[s.at] = x
		s.at++
		return nil
''','''	s.Lock()
	defer s.Unlock()

	if s.at < len(s.stack) {
		s.stack[s.at] = x
		s.at++
		if s.blocking && s.at == 1 {
			// someone may be waiting
			s.notEmpty.Signal()
		}
		return nil
'''),('''	if s.blocking {
		tag := <-s.stackC
		return tag, nil
	}

	s.Lock()
	defer s.Unlock()
''','''	s.Lock()
	defer s.Unlock()

	for s.blocking && s.at == 0 {
		s.notEmpty.Wait()
	}
'''),('''	if s.blocking {
		return len(s.stackC)
	}

	return len(s.stack)
''','''	if s.blocking {
		s.Lock()
		defer s.Unlock()
		return s.at
	}

	return len(s.stack)
''')])]
DEMO='''package tagstack

import (
	"testing"
	"time"
)

func TestZZ(t *testing.T) {
	for i := 0; i < 300 && !t.Failed(); i++ {
		s := NewBlocking(2)
		a, _ := s.Pop()
		b, _ := s.Pop()
		got := make(chan uint32, 2)
		for j := 0; j < 2; j++ {
			go func() {
				x, err := s.Pop()
				if err == nil {
					got <- x
				}
			}()
		}
		time.Sleep(2 * time.Millisecond)
		s.Push(a)
		s.Push(b)
		for j := 0; j < 2; j++ {
			select {
			case <-got:
			case <-time.After(5 * time.Second):
				t.Fatal("a taker waits while a tag is free")
			}
		}
	}
}
'''
