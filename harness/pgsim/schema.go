package pgsim

import (
	"strings"
	"time"
)

// The schema below is the result of applying every migration in /repo/sql.
const schemaText = `
ledgers: id serial pk; name text; ledger_id text nn uq=ledgers_ledger_id_key; created_at timestamp nn now; meta_data jsonb
identity: id serial pk; identity_id text nn uq=identity_identity_id_key; first_name text nn; last_name text nn; other_names text; gender text; dob date; email_address text; phone_number text; nationality text; street text; country text; state text; organization_name text; category text; identity_type text; post_code text; city text; created_at timestamp nn now; meta_data jsonb
balances: id serial pk; balance_id text nn uq=balances_balance_id_key; indicator text; balance numeric nn; credit_balance numeric nn; debit_balance numeric nn; currency text nn; ledger_id text nn fk=ledgers.ledger_id; identity_id text fk=identity.identity_id; created_at timestamp nn now; meta_data jsonb; version integer nn d=1; inflight_balance numeric nn d=0; inflight_credit_balance numeric nn d=0; inflight_debit_balance numeric nn d=0; track_fund_lineage bool nn d=false; allocation_strategy text nn d=FIFO
accounts: id serial pk; account_id text nn uq=accounts_account_id_key; name text nn; number text nn uq=accounts_number_key; bank_name text nn; currency text nn; created_at timestamp nn now; ledger_id text nn fk=ledgers.ledger_id; identity_id text nn fk=identity.identity_id; balance_id text nn fk=balances.balance_id; meta_data jsonb
balance_monitors: id serial pk; monitor_id text nn uq=balance_monitors_monitor_id_key; balance_id text nn fk=balances.balance_id; field text nn in=debit_balance|credit_balance|balance|inflight_debit_balance|inflight_credit_balance|inflight_balance; operator text nn in=>|<|>=|<=|=|!=; value bigint nn; description text; call_back_url text; created_at timestamp nn now; precision float; precise_value bigint
transactions: id serial pk; transaction_id text nn uq=transactions_transaction_id_key; source text fk=balances.balance_id@fk_source_balance; destination text fk=balances.balance_id@fk_destination_balance; description text; reference text; amount numeric; precise_amount numeric; precision bigint d=1; currency text; status text; hash text; created_at timestamp nn now; scheduled_for timestamp; meta_data jsonb; parent_transaction text; effective_date timestamp; chain_seq bigint; chain_prev_hash char; chain_hash char
balance_snapshots: id serial pk; balance_id text nn fk=balances.balance_id; ledger_id text nn fk=ledgers.ledger_id; balance numeric nn; credit_balance numeric nn; debit_balance numeric nn; inflight_balance numeric nn; inflight_credit_balance numeric nn; inflight_debit_balance numeric nn; currency text nn; snapshot_time timestamptz nn; created_at timestamp nn; last_tx_id text; meta_data jsonb
api_keys: id serial pk; api_key_id text nn uq=api_keys_api_key_id_key; key text nn uq=api_keys_key_key; name text nn; owner_id text nn; scopes text[] nn; expires_at timestamptz nn; created_at timestamptz nn now; last_used_at timestamptz nn now; is_revoked bool nn d=false; revoked_at timestamptz; key_prefix text
lineage_mappings: id serial pk; balance_id text nn fk=balances.balance_id! ; provider text nn; shadow_balance_id text nn fk=balances.balance_id!; aggregate_balance_id text nn fk=balances.balance_id!; identity_id text nn fk=identity.identity_id!; created_at timestamp nn now
lineage_outbox: id serial pk; transaction_id text nn uq=lineage_outbox_transaction_id_uidx; source_balance_id text; destination_balance_id text; provider text; lineage_type text nn; payload jsonb nn; status text nn d=pending; attempts integer nn d=0; max_attempts integer nn d=5; last_error text; created_at timestamp nn now; processed_at timestamp; locked_until timestamp; inflight bool nn d=false
chain_state: chain_key text nn pk; last_seq bigint nn d=0; head_hash char nn; genesis_hash char nn; genesis_at timestamp nn now; updated_at timestamp nn now
reconciliations: id serial pk; reconciliation_id text nn; upload_id text nn; status text nn; matched_transactions integer nn; unmatched_transactions integer nn; started_at timestamp nn; completed_at timestamp
matches: id serial pk; external_transaction_id text nn; internal_transaction_id text nn; reconciliation_id text nn; amount numeric nn; date timestamp nn
unmatched: id serial pk; external_transaction_id text nn; reconciliation_id text nn; date timestamp nn
external_transactions: id text nn pk; amount numeric nn; reference text nn; currency text nn; description text; date timestamp nn; source text nn; upload_id text nn
reconciliation_progress: processed_count bigint; reconciliation_id text uq=reconciliation_progress_reconciliation_id_key; last_processed_external_txn_id text
matching_rules: id serial pk; rule_id text nn; created_at timestamp nn; updated_at timestamp nn; name text nn; description text; criteria jsonb nn
`

func (db *DB) defineSchema() {
	for _, line := range strings.Split(strings.TrimSpace(schemaText), "\n") {
		i := strings.Index(line, ":")
		t := &Table{Name: line[:i], ix: map[string]int{}}
		for _, cd := range strings.Split(line[i+1:], ";") {
			f := strings.Fields(cd)
			if len(f) == 0 {
				continue
			}
			c := &Column{Name: f[0], Type: f[1]}
			ci := len(t.Cols)
			if f[1] == "serial" {
				c.Type, c.Serial, c.NotNull = "bigint", true, true
			}
			for _, a := range f[2:] {
				k, v, _ := strings.Cut(a, "=")
				switch {
				case a == "nn":
					c.NotNull = true
				case a == "pk":
					c.NotNull = true
					t.Uniq = append(t.Uniq, &Unique{Name: t.Name + "_pkey", Cols: []int{ci}, PK: true})
				case a == "now":
					c.Default = func(tx *Tx) Value { return TS{T: tx.now, TZ: c.Type == "timestamptz"} }
				case k == "uq":
					t.Uniq = append(t.Uniq, &Unique{Name: v, Cols: []int{ci}})
				case k == "fk":
					v, fkn, _ := strings.Cut(v, "@")
					casc := strings.HasSuffix(v, "!")
					r, rc, _ := strings.Cut(strings.TrimSuffix(v, "!"), ".")
					t.FKs = append(t.FKs, &FK{Name: pick(fkn, t.Name+"_"+c.Name+"_fkey"), Col: ci, Ref: r, RefCol: rc, Cascade: casc})
				case k == "d":
					dv, err := cast(Unknown(v), c.Type)
					if err != nil {
						panic(err)
					}
					c.Default = func(*Tx) Value { return dv }
				case k == "in" && c.Name == "operator", k == "in":
					set := map[string]bool{}
					for _, s := range strings.Split(a[3:], "|") {
						set[s] = true
					}
					c.Check = func(v Value) bool { return set[textOf(v)] }
					c.ChkName = t.Name + "_" + c.Name + "_check"
				}
			}
			t.ix[c.Name] = ci
			t.Cols = append(t.Cols, c)
		}
		db.tables[t.Name] = t
	}
	add := func(tn, name string, where func([]Value) bool, cols ...string) {
		t := db.tables[tn]
		u := &Unique{Name: name, Where: where}
		for _, c := range cols {
			u.Cols = append(u.Cols, t.col(c))
		}
		t.Uniq = append(t.Uniq, u)
	}
	add("transactions", "idx_transactions_reference_unique", nil, "reference")
	add("transactions", "idx_transactions_chain_seq", nil, "chain_seq")
	add("balances", "unique_indicator_currency", nil, "indicator", "currency")
	add("lineage_mappings", "lineage_mappings_balance_id_provider_key", nil, "balance_id", "provider")

	tt := db.tables["transactions"]
	tt.BeforeUpdate = func(tx *Tx, old, nw []Value) ([]Value, error) {
		for _, c := range []string{"transaction_id", "source", "destination", "description", "reference", "amount", "precise_amount", "precision", "currency", "status", "hash", "created_at", "scheduled_for"} {
			i := tt.col(c)
			if distinct(old[i], nw[i]) {
				return nil, pgErr("P0001", "Cannot modify transaction data. Only meta_data and chain fields can be updated.")
			}
		}
		return nw, nil
	}
	bs := db.tables["balance_snapshots"]
	bs.BeforeUpdate = func(tx *Tx, old, nw []Value) ([]Value, error) {
		return nil, pgErr("P0001", "Balance snapshots are immutable and cannot be modified")
	}
	bt := db.tables["balances"]
	bt.BeforeUpdate = func(tx *Tx, old, nw []Value) ([]Value, error) { return reconcileTrigger(db, tx, bt, old, nw) }

	zero := strings.Repeat("0", 64)
	now := TS{T: time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)}
	db.Put("chain_state", map[string]Value{"chain_key": "global", "last_seq": int64(0), "head_hash": zero, "genesis_hash": zero, "genesis_at": now, "updated_at": now})
	db.Put("ledgers", map[string]Value{"name": "General Ledger", "ledger_id": "general_ledger_id", "created_at": now})
}

func reconcileTrigger(db *DB, tx *Tx, bt *Table, old, nw []Value) ([]Value, error) {
	j, ok := nw[bt.col("meta_data")].(JSON)
	if !ok {
		return nw, nil
	}
	m, ok := j.V.(map[string]interface{})
	if !ok || m["BLNK_RUN_RECONCILIATION"] != "SOURCE" {
		return nw, nil
	}
	tt := db.tables["transactions"]
	id := nw[bt.col("balance_id")]
	debit, credit := NumFromInt(0), NumFromInt(0)
	add := func(a *Num, row []Value) {
		v := row[tt.col("precise_amount")]
		if v == nil {
			v = row[tt.col("amount")]
		}
		x, y, s := align(*a, toNum(v))
		*a = Num{bigAdd(x, y), s}
	}
	for _, r := range tt.Rows {
		row := tx.vis(tt, r)
		if row == nil || textOf(row[tt.col("status")]) != "APPLIED" {
			continue
		}
		if !distinct(row[tt.col("source")], id) {
			add(&debit, row)
		}
		if d := row[tt.col("destination")]; d != nil && !distinct(d, id) {
			add(&credit, row)
		}
	}
	x, y, s := align(credit, debit)
	bal := Num{bigSub(x, y), s}
	out := append([]Value(nil), nw...)
	out[bt.col("debit_balance")], out[bt.col("credit_balance")], out[bt.col("balance")] = debit, credit, bal
	m2 := map[string]interface{}{}
	for k, v := range m {
		if k != "BLNK_RUN_RECONCILIATION" {
			m2[k] = v
		}
	}
	ob := toNum(old[bt.col("balance")])
	x, y, s = align(bal, ob)
	m2["BLNK_RECONCILIATION_RESULT"] = map[string]interface{}{
		"executed_at": tx.now.String(), "previous_debit": textOf(old[bt.col("debit_balance")]), "previous_credit": textOf(old[bt.col("credit_balance")]),
		"previous_balance": ob.String(), "recalculated_debit": debit.String(), "recalculated_credit": credit.String(), "recalculated_balance": bal.String(),
		"difference": Num{bigSub(x, y), s}.String(),
	}
	out[bt.col("meta_data")] = JSON{m2}
	return out, nil
}

// takeSnapshots is blnk.take_daily_balance_snapshots_batched (migration 1740493523).
func (db *DB) takeSnapshots(tx *Tx, batch int64) (Value, error) {
	bt, st, tt := db.tables["balances"], db.tables["balance_snapshots"], db.tables["transactions"]
	day := func(t time.Time) string {
		d := t.UTC().Format("2006-01-02")
		for _, m := range db.Midnights { // a test's own midnights
			if !t.Before(m) {
				d += "+"
			}
		}
		return d
	}
	today := day(tx.now)
	total := int64(0)
	last, max := int64(0), int64(0)
	type br struct {
		id  int64
		row []Value
	}
	var all []br
	for _, r := range bt.Rows {
		if row := tx.vis(bt, r); row != nil {
			id := row[bt.col("id")].(int64)
			all = append(all, br{id, row})
			if id > max {
				max = id
			}
		}
	}
	for i := range all {
		for j := i + 1; j < len(all); j++ {
			if all[j].id < all[i].id {
				all[i], all[j] = all[j], all[i]
			}
		}
	}
	for {
		n := int64(0)
		for _, b := range all {
			if b.id <= last || n >= batch {
				continue
			}
			bid := b.row[bt.col("balance_id")]
			have := false
			for _, r := range st.Rows {
				if s := tx.vis(st, r); s != nil && !distinct(s[st.col("balance_id")], bid) && day(s[st.col("snapshot_time")].(TS).T) == today {
					have = true
				}
			}
			if have {
				continue
			}
			var lastTx Value
			var lastAt time.Time
			for _, r := range tt.Rows {
				row := tx.vis(tt, r)
				if row == nil {
					continue
				}
				if !distinct(row[tt.col("source")], bid) || !distinct(row[tt.col("destination")], bid) {
					if at := row[tt.col("created_at")].(TS).T; lastTx == nil || at.After(lastAt) {
						lastTx, lastAt = row[tt.col("transaction_id")], at
					}
				}
			}
			row := st.defaults(tx)
			for _, c := range []string{"balance_id", "ledger_id", "balance", "credit_balance", "debit_balance", "inflight_balance", "inflight_credit_balance", "inflight_debit_balance", "currency", "meta_data"} {
				row[st.col(c)] = b.row[bt.col(c)]
			}
			row[st.col("snapshot_time")] = TS{T: tx.now, TZ: true}
			row[st.col("created_at")] = TS{T: tx.now}
			row[st.col("last_tx_id")] = lastTx
			if _, err := db.insertRow(tx, st, row); err != nil {
				return nil, err
			}
			n++
		}
		total += n
		c := int64(0)
		nl := last
		for _, b := range all {
			if b.id > last && c < batch {
				nl = b.id
				c++
			}
		}
		last = nl
		if n == 0 || last >= max {
			break
		}
	}
	return total, nil
}

func pick(a, b string) string {
	if a != "" {
		return a
	}
	return b
}
