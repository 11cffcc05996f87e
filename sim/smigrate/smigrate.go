// Package smigrate replaces sql-migrate: every migration which was not applied yet is executed in a transaction of its own.
package smigrate

import (
	"context"
	"fmt"
	"sort"

	"github.com/solarisdb/solaris/zthird/sql"
)

type MigrationDirection int

const (
	Up MigrationDirection = iota
	Down
)

type Migration struct {
	Id                     string
	Up                     []string
	Down                   []string
	DisableTransactionUp   bool
	DisableTransactionDown bool
}

type MigrationSource interface {
	FindMigrations() ([]*Migration, error)
}

type MemoryMigrationSource struct{ Migrations []*Migration }

func (m MemoryMigrationSource) FindMigrations() ([]*Migration, error) {
	res := append([]*Migration{}, m.Migrations...)
	sort.SliceStable(res, func(i, j int) bool { return res[i].Id < res[j].Id })
	return res, nil
}

func Exec(db *sql.DB, dialect string, m MigrationSource, dir MigrationDirection) (int, error) {
	return ExecContext(context.Background(), db, dialect, m, dir)
}

func ExecContext(ctx context.Context, db *sql.DB, dialect string, m MigrationSource, dir MigrationDirection) (n int, err error) {
	if dialect != "postgres" {
		return 0, fmt.Errorf("unknown dialect %q", dialect)
	}
	ms, err := m.FindMigrations()
	if err != nil {
		return 0, err
	}
	if _, err = db.ExecContext(ctx, "create table if not exists gorp_migrations (id text not null primary key, applied_at timestamp with time zone)"); err != nil {
		return 0, err
	}
	rows, err := db.QueryContext(ctx, "select id from gorp_migrations")
	if err != nil {
		return 0, err
	}
	done := map[string]bool{}
	for rows.Next() {
		var id string
		if err = rows.Scan(&id); err != nil {
			break
		}
		done[id] = true
	}
	rows.Close()
	if err == nil {
		err = rows.Err()
	}
	if err != nil {
		return 0, err
	}
	if dir == Down {
		for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
			ms[i], ms[j] = ms[j], ms[i]
		}
	}
	for _, x := range ms {
		if done[x.Id] == (dir == Up) {
			continue
		}
		tx, err := db.BeginTx(ctx, nil)
		if err != nil {
			return n, err
		}
		qs := x.Up
		if dir == Down {
			qs = x.Down
		}
		for _, q := range qs {
			if _, err = tx.ExecContext(ctx, q); err != nil {
				break
			}
		}
		if err == nil {
			if dir == Up {
				_, err = tx.ExecContext(ctx, "insert into gorp_migrations (id, applied_at) values ($1, now())", x.Id)
			} else {
				_, err = tx.ExecContext(ctx, "delete from gorp_migrations where id = $1", x.Id)
			}
		}
		if err != nil {
			tx.Rollback()
			return n, err
		}
		if err = tx.Commit(); err != nil {
			return n, err
		}
		n++
	}
	return n, nil
}
