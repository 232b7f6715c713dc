PROP='P12'
NEEDS='three identities with the same nick, or one that already carries the suffixed nick'
BREAKS='only one suffix is tried: the third identity with a nick replaces the second one'
PKG='zkclient/addressbook'
EDITS=[('zkclient/addressbook/addressbook.go',[('''			identity.Nick += "_"
			err = ErrDuplicateNick // mark nick as seen
			continue
		}
		break
''','''			identity.Nick += "_"
			err = ErrDuplicateNick // mark nick as seen
		}
		break
''')])]
DEMO='''package addressbook

import (
	"testing"

	"github.com/companyzero/zkc/zkidentity"
)

func TestZZ(t *testing.T) {
	a := New()
	for i := byte(1); i < 5; i++ {
		var p zkidentity.PublicIdentity
		p.Nick = "same"
		p.Identity[0] = i
		a.Add(p)
	}
	for i := byte(1); i < 5; i++ {
		var id [zkidentity.IdentitySize]byte
		id[0] = i
		if _, err := a.FindIdentity(id); err != nil {
			t.Errorf("%v: %v", i, err)
		}
	}
}
'''
