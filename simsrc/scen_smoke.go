package main

import (
	"context"
	"fmt"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/verifsim/kit"
)

func init() { register(&scenario{name: "smoke", run: smoke}) }

func smoke(k *kit.Kit) {
	w := newWorld(k)
	n := k.NewNode()
	k.Must(n, "smoke", time.Hour, func() {
		c, err := mysql.Connect(dbConfig())
		if err != nil {
			k.Fail("", "connect", "%v", err)
			return
		}
		r, err := c.LoadRoot(context.Background())
		k.Tracef("root %v %v", r, err)
		var id common.SHA256Output
		err = c.SaveRoot(context.Background(), &id)
		k.Tracef("save %v", err)
		r, err = c.LoadRoot(context.Background())
		k.Tracef("root %v %v", r, err)
		_ = db.KeyDBName
	})
	fmt.Println(w.db.Unsupported)
}
