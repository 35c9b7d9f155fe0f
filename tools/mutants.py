"""Edits used to exercise the rules: ('B', property, [(file, old, new)]) must
be reported, ('Q', ...) keeps the behaviour and must stay quiet."""
ALL = []


def B(prop, f, old, new, *more):
    ALL.append(('B', prop, [(f, old, new)] + list(more)))


def Q(prop, f, old, new, *more):
    for p in prop.split(','):
        ALL.append(('Q', p, [(f, old, new)] + list(more)))


R = 'parsec/runtime_locking_shard/impl.cpp'
B('P01', R, 'if(lk.m_readers.size() > 1 || lk.m_writer.has_value()) {', 'if(lk.m_readers.size() > 1) {')
B('P01', R, 'if(lk.m_readers.size() > 1 || lk.m_writer.has_value()) {', 'if(lk.m_readers.size() > 2 || lk.m_writer.has_value()) {')
B('P01', R, 'if(*lk.m_readers.begin() != queued_ticket_number) {', 'if(*lk.m_readers.begin() < queued_ticket_number) {')
B('P01', R, 'lk.m_readers.clear();\n            }', '}')
B('P01', R, '            if(lk.m_writer.has_value()) {\n                return false;', '            if(lk.m_writer.has_value() && queued_ticket_number < lk.m_writer.value()) {\n                return false;')
B('P01', R, 'while(acquire_lock(key, callbacks)) {}', 'acquire_lock(key, callbacks);')
B('P01', R, 'locked_element.m_value,\n            queued', 'value_type(),\n            queued')
B('P01', R, 'std::unique_lock<std::mutex> l(m_mut);\n            // Grab the ticket and ensure it exists\n            auto ticket_it = m_tickets.find(ticket_number);\n            if(ticket_it == m_tickets.end()) {\n                m_log->error(this,\n                             ticket_number,\n                             "does not exist on shard for rollback");', '// Grab the ticket and ensure it exists\n            auto ticket_it = m_tickets.find(ticket_number);\n            if(ticket_it == m_tickets.end()) {\n                m_log->error(this,\n                             ticket_number,\n                             "does not exist on shard for rollback");')
Q('P01,P02,P03', R, 'if(lk.m_readers.size() > 1 || lk.m_writer.has_value()) {\n                return false;\n            }\n            if(lk.m_readers.size() == 1) {\n                if(*lk.m_readers.begin() != queued_ticket_number) {\n                    return false;\n                }\n\n                // Upgrade from a read to a write lock\n                lk.m_readers.clear();\n            }',
  'if(lk.m_writer.has_value()) { return false; }\n            const auto n = lk.m_readers.size();\n const auto upgrade = n == 1 && *lk.m_readers.begin() == queued_ticket_number;\n if(n != 0 && !upgrade) { return false; } if(upgrade) { lk.m_readers.erase(queued_ticket_number); }')
Q('P01', R, 'while(acquire_lock(key, callbacks)) {}', 'bool more = true; while(more) { more = acquire_lock(key, callbacks); }')
Q('P01', R, 'while(acquire_lock(key, callbacks)) {}', 'for(;;) { if(!acquire_lock(key, callbacks)) { break; } }')
B('P02', R, 'return ticket_number < blocking_ticket_number;', 'return ticket_number > blocking_ticket_number;')
B('P02', R, 'return ticket_number < blocking_ticket_number;', 'return ticket_number != blocking_ticket_number;')
B('P02', R, 'if(blocking_ticket.m_state == ticket_state::prepared) {\n                continue;\n            }', '')
B('P02', R, 'if(blocking_ticket.m_state == ticket_state::prepared) {\n                continue;', 'if(blocking_ticket.m_state == ticket_state::prepared) {\n                break;')
B('P02', R, 'keys.merge(affected_keys);', '')
B('P02', R, 'keys.insert(std::move(key));\n', '')
B('P02', R, 'ticket.m_locks_held.clear();', '')
B('P02', R, 'if(lt == lock_type::write) {\n                m_log->trace("Releasing write', 'if(lt == lock_type::write && callbacks.empty()) {\n                m_log->trace("Releasing write')
B('P02', R, 'if(younger_ticket(lock.m_writer.value())) {', 'if(locktype == lock_type::write && younger_ticket(lock.m_writer.value())) {')
Q('P02', R, '''            std::copy_if(lock.m_readers.begin(),
                         lock.m_readers.end(),
                         std::back_inserter(waiting_on),
                         younger_ticket);''', 'for(auto r : lock.m_readers) { if(!younger_ticket(r)) { continue; } waiting_on.push_back(r); }')
Q('P02', R, '''            if(blocking_ticket.m_state == ticket_state::prepared) {
                continue;
            }

            // Mark the ticket as wounded
            blocking_ticket.m_state = ticket_state::wounded;
            blocking_ticket.m_wounded_details = {blocked_ticket, key};

            auto [wounded_callbacks, affected_keys]
                = release_locks(blocking_ticket_number, blocking_ticket);
            callbacks.insert(
                callbacks.end(),
                std::make_move_iterator(wounded_callbacks.begin()),
                std::make_move_iterator(wounded_callbacks.end()));
            keys.merge(affected_keys);''', '''if(blocking_ticket.m_state != ticket_state::prepared) {
            blocking_ticket.m_wounded_details = {blocked_ticket, key};
            blocking_ticket.m_state = ticket_state::wounded;
            auto rel = release_locks(blocking_ticket_number, blocking_ticket);
            for(auto& cb : rel.first) { callbacks.push_back(std::move(cb)); }
            for(const auto& k : rel.second) { keys.insert(k); }
            }''')
B('P03', R, 'lock_it->second >= locktype', 'lock_it->second > locktype')
B('P03', R, '''            if(ticket.m_state == ticket_state::committed) {
                m_log->error(ticket_number, "called try_lock after commit");
                return error_code::committed;
            }
''', '')
B('P03', R, 'if(ticket.m_state != ticket_state::prepared) {', 'if(ticket.m_state == ticket_state::committed) {')
B('P03', R, 'if(lk_it->second != lock_type::write) {', 'if(lk_it->second != lock_type::write && state_update.size() > 1) {')
B('P03', R, 'm_state[key].m_value = std::move(value);', 'if(value.size() > 0) { m_state[key].m_value = std::move(value); }')
B('P03', R, 'callbacks = acquire_locks(affected_keys);\n            callbacks.insert(\n                callbacks.end(),\n                std::make_move_iterator(wounded_callbacks.begin()),\n                std::make_move_iterator(wounded_callbacks.end()));\n\n            // We erase', '// We erase')
B('P03', R, 'if(ticket.m_broker_id == broker_id) {', 'if(ticket.m_broker_id == broker_id || ticket.m_state == ticket_state::prepared) {')
B('P03', R, 'if(ticket.m_state != ticket_state::committed) {\n                m_log->error(this,\n                             ticket_number,\n                             "finish', 'if(ticket.m_state == ticket_state::begun) {\n                m_log->error(this,\n                             ticket_number,\n                             "finish')
B('P03', R, 'w_details = ticket.m_wounded_details;\n                return', 'return')
B('P03', R, 'ticket.m_broker_id = broker_id;\n', '')
Q('P03', R, 'if(maybe_error.has_value()) {\n            result_callback(shard_error{maybe_error.value(), w_details});\n        } else {', 'if(!maybe_error) {', (R, '''            for(auto& callback : callbacks) {
                callback.m_callback(std::move(callback.m_returning));
            }
        }

        return true;
    }

    auto impl::wound''', '''            for(size_t i = 0; i < callbacks.size(); ++i) {
                callbacks[i].m_callback(std::move(callbacks[i].m_returning));
            }
        } else { auto e = shard_error{*maybe_error, w_details}; result_callback(std::move(e)); }

        return true;
    }

    auto impl::wound'''))
Q('P03', R, '''            for(auto& [key, value] : state_update) {
                auto lk_it = ticket.m_locks_held.find(key);
                if(lk_it == ticket.m_locks_held.end()) {''', '''            for(auto it = state_update.begin(); it != state_update.end(); ++it) {
                auto lk_it = ticket.m_locks_held.find(it->first);
                if(ticket.m_locks_held.count(it->first) == 0) {''')

K = 'parsec/broker/impl.cpp'
B('P04', K, 'm_highest_ticket < n.second', 'm_highest_ticket > n.second')
B('P04', K, 'k_it->second.m_value = v;', '')
B('P04', K, 'k_it->second.m_key_state = key_state::locked;', 'if(v.size() > 0) { k_it->second.m_key_state = key_state::locked; }')
B('P04', K, 't_state->m_shard_states.clear();', '')
B('P04', K, 'it->second.m_locktype >= locktype', 'it->second.m_locktype <= locktype')
B('P04', K, '               && it->second.m_key_state == key_state::locked\n', '')
B('P04', K, 'auto first_lock = ss.m_key_states.empty();', 'auto first_lock = true;')
B('P04', K, 'ks.m_locktype = locktype;', '')
Q('P04', K, 'auto first_lock = ss.m_key_states.empty();', 'auto first_lock = ss.m_key_states.begin() == ss.m_key_states.end();')
Q('P04', K, '''            if(it != ss.m_key_states.end()
               && it->second.m_key_state == key_state::locked
               && it->second.m_locktype >= locktype) {
                assert(it->second.m_value.has_value());
                return it->second.m_value.value();
            }''', '''            const auto held = it != ss.m_key_states.end() && it->second.m_key_state == key_state::locked;
            if(held) { if(!(it->second.m_locktype < locktype)) { return *it->second.m_value; } }''')
Q('P04', K, '''        auto maybe_error = [&]() -> std::optional<error_code> {
            std::unique_lock l(m_mut);
            auto it = m_tickets.find(ticket_number);
            if(it == m_tickets.end()) {
                return error_code::unknown_ticket;
            }

            auto t_state = it->second;
            switch(t_state->m_state) {
                case ticket_state::begun:
                    break;
                case ticket_state::prepared:
                    return error_code::prepared;
                case ticket_state::committed:
                    return error_code::committed;
                case ticket_state::aborted:
                    t_state->m_state = ticket_state::begun;
                    t_state->m_shard_states.clear();''', '''        auto maybe_error = [&]() -> std::optional<error_code> {
            std::unique_lock l(m_mut);
            if(m_tickets.count(ticket_number) == 0) {
                return error_code::unknown_ticket;
            }

            auto t_state = m_tickets.at(ticket_number);
            switch(t_state->m_state) {
                case ticket_state::begun:
                    break;
                case ticket_state::prepared:
                    return error_code::prepared;
                case ticket_state::committed:
                    return error_code::committed;
                case ticket_state::aborted:
                    t_state->m_shard_states.clear();
                    t_state->m_state = ticket_state::begun;''')
B('P05', K, 'if(shard.second.m_state != shard_state_type::prepared) {\n                return std::nullopt;', 'if(shard.second.m_state == shard_state_type::preparing) {\n                return std::nullopt;')
B('P05', K, '        ts->m_state = ticket_state::prepared;\n', '')
B('P05', K, '''                if(shard.second.m_key_states.find(update.first)
                   != shard.second.m_key_states.end()) {
                    shard_updates.emplace(update);
                }''', 'shard_updates.emplace(update);')
B('P05', K, 'if(ss != shard_state_type::preparing) {', 'if(ss == shard_state_type::begun) {')
B('P05', K, '''                if(shard.second.m_state != shard_state_type::committed) {
                    return std::nullopt;
                }
            }

            tss->m_state''', '''                if(shard.second.m_state == shard_state_type::committing) {
                    return std::nullopt;
                }
            }

            tss->m_state''')
B('P05', K, 'if(key.second.m_key_state == key_state::locking) {', 'if(key.second.m_key_state == key_state::locking && state_updates.empty()) {')
B('P05', K, 'handle_commit(commit_cb, ticket_number, sidx, comm_res);', 'handle_commit(commit_cb, ticket_number, sidx, std::nullopt);')
B('P05', K, '''                m_log->error("Error committing on shard");
                return error_code::commit_error;''', 'm_log->error("Error committing on shard");')
Q('P05', K, '''        for(auto& shard : ts->m_shard_states) {
            if(shard.second.m_state != shard_state_type::prepared) {
                return std::nullopt;
            }
        }

        ts->m_state''', '''        const auto all = std::all_of(ts->m_shard_states.begin(), ts->m_shard_states.end(), [](const auto& s) { return s.second.m_state == shard_state_type::prepared; });
        if(!all) { return std::nullopt; }

        ts->m_state''')
Q('P05', K, '''            for(auto& shard : tss->m_shard_states) {
                if(shard.second.m_state != shard_state_type::committed) {
                    return std::nullopt;
                }
            }

            tss->m_state''', '''            bool pending = false;
            for(auto& shard : tss->m_shard_states) {
                if(shard.second.m_state != shard_state_type::committed) {
                    pending = true;
                }
            }
            if(pending) { return std::nullopt; }

            tss->m_state''')
Q('P05', K, '''            shard.second.m_state = shard_state_type::preparing;
            auto shard_updates = state_update_type();
            for(const auto& update : state_updates) {
                if(shard.second.m_key_states.find(update.first)
                   != shard.second.m_key_states.end()) {
                    shard_updates.emplace(update);
                }
            }''', '''            auto shard_updates = state_update_type();
            for(const auto& [k, v] : state_updates) {
                if(shard.second.m_key_states.count(k) == 0) { continue; }
                shard_updates[k] = v;
            }
            shard.second.m_state = shard_state_type::preparing;''')
B('P06', K, '''                if(shard.second.m_state != shard_state_type::rolled_back) {
                    m_log->trace(''', '''                if(shard.second.m_state == shard_state_type::rolling_back) {
                    m_log->trace(''')
B('P06', K, 'tss->m_state = ticket_state::aborted;\n            callback = true;', 'callback = true;')
B('P06', K, 's_state.m_key_states.clear();', '')
B('P06', K, 'm_tickets.erase(ittt);', '')
B('P06', K, 'if(m_recovery_tickets.size() != m_shards.size()) {', 'if(m_recovery_tickets.empty()) {')
B('P06', K, 'shard.second.m_state = shard_state_type::finishing;', '')
B('P06', K, 'm_recovery_tickets.clear();', '')
Q('P06', K, '''                if(shard.second.m_state == shard_state_type::finished) {
                    m_log->trace(this,
                                 "Broker skipping finish on",
                                 shard.first,
                                 "for ticket",
                                 ticket_number,
                                 " already finished");
                    continue;
                }''', 'const auto already = shard.second.m_state == shard_state_type::finished; if(already) { continue; }')

L = 'uhs/twophase/locking_shard/locking_shard.cpp'
B('S01', 'util/common/config.cpp', 'return val[0] >= range.first && val[0] <= range.second;', 'return val[0] >= range.first && val[0] < range.second;')
B('S01', L, '''                if(hash_in_shard_range(uhs_id)
                   && m_uhs.find(uhs_id) == m_uhs.end()) {''', '''                if(hash_in_shard_range(uhs_id)
                   && m_uhs.find(uhs_id) == m_uhs.end()
                   && m_locked.find(uhs_id) == m_locked.end()) {''')
B('S01', L, 'm_locked.emplace(uhs_id);', 'if(!m_locked.empty()) { m_locked.emplace(uhs_id); }')
B('S01', L, '''            auto success = check_and_lock_tx(tx);
            ret.push_back(success);''', '''            auto success = check_and_lock_tx(tx);
            ret.push_back(success || ret.empty());''')
Q('S01', L, '''        bool success{true};
        if(!transaction''', '''        bool success = 1 == 1;
        if(!transaction''')
Q('S01,S02,S03', L, '''        auto prepared_dtx_it = m_prepared_dtxs.find(dtx_id);
        if(prepared_dtx_it != m_prepared_dtxs.end()) {
            return prepared_dtx_it->second.m_results;
        }
''', '''        if(m_prepared_dtxs.count(dtx_id) != 0) {
            return m_prepared_dtxs.at(dtx_id).m_results;
        }
''')
Q('S01,S02', L, '''            for(const auto& uhs_id : t.m_tx.m_inputs) {
                if(hash_in_shard_range(uhs_id)) {
                    auto n = m_uhs.extract(uhs_id);
                    assert(!n.empty());
                    m_locked.emplace(uhs_id);
                }
            }''', '''            for(size_t k = 0; k < t.m_tx.m_inputs.size(); k++) {
                const auto& in = t.m_tx.m_inputs[k];
                if(!hash_in_shard_range(in)) {
                    continue;
                }
                m_locked.insert(in);
                m_uhs.erase(in);
            }''')
B('S02', L, 'if(locked[i] && hash_in_shard_range(uhs_id)) {', 'if(hash_in_shard_range(uhs_id)) {')
B('S02', L, 'if(!complete_txs[i] && (was_locked != 0U)) {', 'if(was_locked != 0U) {')
B('S02', L, 'if(hash_in_shard_range(uhs_id) && complete_txs[i]) {', 'if(hash_in_shard_range(uhs_id) && locked[i]) {')
B('S02', L, 'm_applied_dtxs.insert(dtx_id);', '')
B('S02', L, 'm_prepared_dtxs.erase(dtx_id);', '')
B('S02', L, '''        std::unique_lock<std::shared_mutex> l(m_mut);
        if(!m_running) {
            return false;''', '''        std::shared_lock<std::shared_mutex> l(m_mut);
        if(!m_running) {
            return false;''')
B('S03', L, 'if(complete_txs[i] && hash_in_shard_range(tx.m_tx.m_id)) {', 'if(hash_in_shard_range(tx.m_tx.m_id)) {')
B('S03', L, '''            || m_locked.find(uhs_id) != m_locked.end();''', ';')
B('S03', 'uhs/twophase/locking_shard/state_machine.cpp', 'm_last_committed_idx = log_idx;\n\n        auto resp', 'auto resp')
B('S03', 'uhs/twophase/locking_shard/status_client.hpp', 'm_shard_clients[i]->call', 'm_shard_clients[0]->call')
B('S03', 'uhs/twophase/locking_shard/status_server.cpp', 'return m_impl->check_unspent(\n                                             r.m_uhs_id);', 'return m_impl->check_tx_id(\n                                             r.m_uhs_id);')
Q('S03', 'uhs/twophase/locking_shard/status_client.hpp', '''            for(size_t i = 0; i < m_shard_ranges.size(); i++) {
                if(config::hash_in_shard_range(m_shard_ranges[i], val)) {
                    return m_shard_clients[i]->call(T{val}, m_request_timeout);
                }
            }
            return std::nullopt;''', '''            auto i = size_t{0};
            for(const auto& r : m_shard_ranges) {
                const auto mine = config::hash_in_shard_range(r, val);
                if(mine) {
                    auto req = T{val};
                    return m_shard_clients[i]->call(req, m_request_timeout);
                }
                i++;
            }
            return std::nullopt;''')

RD = 'parsec/runtime_locking_shard/'
RS = RD + 'replicated_shard.cpp'
B('P07', RS, '            if(t.m_state == ticket_state::committed) {\n                // Already applied, later tickets may have written the keys\n                return std::nullopt;\n            }\n', '')
B('P07', RS, 'm_state[k] = std::move(v);', 'm_state.emplace(k, std::move(v));')
B('P07', RS, 't.m_state = ticket_state::committed;', '')
B('P07', RS, 'm_tickets.erase(ticket_number);', 'if(auto it = m_tickets.find(ticket_number); it != m_tickets.end() && it->second.m_state == ticket_state::committed) { m_tickets.erase(it); }')
B('P07', RS, 'std::unique_lock l(m_mut);\n        return m_state;', 'return m_state;')
B('P07', RS, '            std::unique_lock l(m_mut);\n            auto it = m_tickets.find(ticket_number);', '            auto it = m_tickets.find(ticket_number);')
B('P07', R, 'm_state[k].m_lock.m_writer = tn;', '')
B('P07', R, 'ticket.m_locks_held.emplace(k, lock_type::write);', 'ticket.m_locks_held.emplace(k, lock_type::read);')
B('P07', R, 'ticket.m_state_update = t.m_state_update;', '')
B('P07', R, 'if(!m_tickets.empty() || !m_state.empty()) {', 'if(!m_tickets.empty() && !m_state.empty()) {')
B('P07', R, 'ticket.m_broker_id = t.m_broker_id;', '')
B('P07', R, '                case replicated_shard::ticket_state::committed:\n                    ticket.m_state = ticket_state::committed;\n                    break;', '                case replicated_shard::ticket_state::committed:\n                    continue;')
B('P07', RD + 'controller.cpp', 'm_logger->error("Error during shard recovery");\n            return;', 'm_logger->error("Error during shard recovery");')
B('P07', RD + 'controller.cpp', '        m_shard = std::make_unique<impl>(m_logger);', '        if(!m_shard) { m_shard = std::make_unique<impl>(m_logger); }')
B('P07', RD + 'controller.cpp', 'm_server.reset();', '')
Q('P07', RS, '            auto it = m_tickets.find(ticket_number);\n            if(it == m_tickets.end()) {\n                return error_code::unknown_ticket;\n            }\n            auto& t = it->second;', 'if(m_tickets.count(ticket_number) == 0) { return error_code::unknown_ticket; }\n auto& t = m_tickets.at(ticket_number);')
Q('P07', RS, 'm_tickets.erase(ticket_number);', 'auto it = m_tickets.find(ticket_number); if(it != m_tickets.end()) { m_tickets.erase(it); }')
Q('P07', RS, 'm_state[k] = std::move(v);', 'm_state.insert_or_assign(k, std::move(v));')
Q('P07', R, '''            switch(t.m_state) {
                case replicated_shard::ticket_state::committed:
                    ticket.m_state = ticket_state::committed;
                    break;
                case replicated_shard::ticket_state::prepared:
                    ticket.m_state = ticket_state::prepared;
                    for(const auto& [k, v] : t.m_state_update) {
                        ticket.m_locks_held.emplace(k, lock_type::write);
                        m_state[k].m_lock.m_writer = tn;
                    }
                    break;
            }
            ticket.m_state_update = t.m_state_update;''', '''            ticket.m_state_update = t.m_state_update;
            if(t.m_state == replicated_shard::ticket_state::prepared) {
                    ticket.m_state = ticket_state::prepared;
                    for(const auto& [k, v] : ticket.m_state_update) {
                        ticket.m_locks_held[k] = lock_type::write;
                        auto& el = m_state[k]; el.m_lock.m_writer = tn;
                    }
            } else { ticket.m_state = ticket_state::committed; }''')
Q('P07', R, '''        if(!m_tickets.empty() || !m_state.empty()) {
            m_log->error("Shard state is not empty, cannot recover");
            return false;
        }
        m_state.reserve(state.size());''', '''        const auto fresh = m_tickets.empty() && m_state.empty();
        if(!fresh) { return false; }''')
SV = RD + 'server.cpp'
B('P08', SV, 'return m_repl->commit(', 'return m_impl->commit(', (SV, 'replicated_shard_interface::return_type ret) {\n                            handle_commit(ret, msg, callback);', 'interface::commit_return_type) {\n                            handle_commit({}, msg, callback);'))
B('P08', SV, '            m_log->error("Error response during commit replication");\n            callback(interface::commit_return_type{\n                shard_error{error_code::internal_error, std::nullopt}});\n            return;', '            m_log->error("Error response during commit replication");')
B('P08', SV, 'callback(interface::prepare_return_type{});', '', (SV, '        if(!success) {\n            m_log->error("Error replicating prepare");', '        if(success) { callback(interface::prepare_return_type{}); } else {\n'))
B('P08', SV, '            m_log->trace("Error response during prepare");\n            callback(std::move(ret));\n            return;', '            m_log->trace("Error response during prepare");\n            callback(std::move(ret));')
B('P08', RD + 'state_machine.cpp', 'm_last_committed_idx = log_idx;', 'm_last_committed_idx++;')
B('P08', RD + 'state_machine.cpp', '''return m_shard->finish(''', '''return m_shard->commit(''')
B('P08', RD + 'client.cpp', 'auto req = prepare_request{ticket_number, state_update, broker_id};', 'auto req = prepare_request{broker_id, state_update, ticket_number};')
B('P08', RD + 'client.cpp', 'auto req = rollback_request{ticket_number};', 'auto req = finish_request{ticket_number};')
B('P08', RD + 'replicated_shard_client.cpp', '                if(err) {\n                    result_callback(std::nullopt);\n                    return;\n                }\n', '', (RD + 'replicated_shard_client.cpp', 'if(!m_raft->is_leader()) {', 'if(m_raft->is_leader()) {'))
B('P08', RD + 'replicated_shard_client.cpp', 'auto req = rpc::finish_request{ticket_number};', 'auto req = rpc::commit_request{ticket_number};')
Q('P08', RD + 'client.cpp', 'auto req = rollback_request{ticket_number};\n        return m_client->call(\n            req,', 'rollback_request req{};\n  req.m_ticket_number = ticket_number;\n      return m_client->call(\n            req,')
Q('P08', RD + 'server.cpp', '''        if(ret.has_value()) {
            m_log->trace("Error response during prepare");
            callback(std::move(ret));
            return;
        }
''', '''        const auto failed = ret.has_value();
        if(failed) {
            callback(ret);
            return;
        }
''')
Q('P08', RD + 'state_machine.cpp', '        m_last_committed_idx = log_idx;\n\n        return resp_buf;', '        m_last_committed_idx = log_idx;\n        return resp_buf;', (RD + 'state_machine.cpp', 'auto&& req = maybe_req.value();\n        auto resp = process_request(req);', 'auto resp = process_request(*maybe_req);'))
Q('P08', RD + 'state_machine.cpp', '''        [[maybe_unused]] auto success = std::visit(''', '''        bool success = false;\n auto record = [&ret](auto&& res) { ret = res; }; success = std::visit(''', (RD + 'state_machine.cpp', '''                        [&](replicated_shard::return_type res) {
                            ret = res;
                        });
                },
                [&](rpc::finish_request msg) {''', '''record);
                },
                [&](rpc::finish_request msg) {'''))

TM = 'parsec/ticket_machine/'
B('P09', TM + 'impl.cpp', 'auto ticket_number = m_next_ticket_number.fetch_add(m_range);', 'auto ticket_number = m_next_ticket_number.load(); m_next_ticket_number = ticket_number + m_range;')
B('P09', TM + 'impl.cpp', 'm_next_ticket_number.fetch_add(m_range);', 'm_next_ticket_number.fetch_add(m_range - 1);')
B('P09', TM + 'impl.cpp', 'ticket_number_range_type{ticket_number, ticket_number + m_range}', 'ticket_number_range_type{ticket_number, ticket_number + m_range + 1}')
B('P09', TM + 'client.cpp', '            num = m_tickets.front();\n            m_tickets.pop();', '            num = m_tickets.front();\n            if(m_tickets.size() > 1) { m_tickets.pop(); }')
B('P09', TM + 'client.cpp', 'i < range.second', 'i <= range.second')
B('P09', TM + 'client.cpp', '                tickets.push(m_tickets.front());\n                m_tickets.pop();', '                tickets.push(m_tickets.front());')
B('P09', TM + 'client.cpp', '                                              m_fetching_tickets = false;\n', '')
B('P09', TM + 'client.cpp', '                callbacks.push(std::move(m_callbacks.front()));\n                m_callbacks.pop();', '                callbacks.push(m_callbacks.front());')
B('P09', TM + 'client.cpp', '                m_fetching_tickets = false;\n            } else {', '            } else {')
B('P09', TM + 'client.cpp', '        {\n            std::unique_lock ll(m_mut);\n            for', '        {\n            for')
B('P09', TM + 'client.cpp', '                if(res) {\n                    m_fetching_tickets = true;\n                }', '                m_fetching_tickets = true;')
Q('P09', TM + 'impl.cpp', 'auto ticket_number = m_next_ticket_number.fetch_add(m_range);', 'auto ticket_number = (m_next_ticket_number += m_range) - m_range;')
Q('P09', TM + 'client.cpp', '''            while(!m_tickets.empty() && !m_callbacks.empty()) {
                callbacks.push(std::move(m_callbacks.front()));
                m_callbacks.pop();
                tickets.push(m_tickets.front());
                m_tickets.pop();
            }''', '''            for(; !(m_tickets.empty() || m_callbacks.empty());) {
                auto cb = std::move(m_callbacks.front());
                m_callbacks.pop();
                auto t = m_tickets.front();
                m_tickets.pop();
                callbacks.push(std::move(cb));
                tickets.push(t);
            }''')
Q('P09', TM + 'client.cpp', '''                auto res = fetch_tickets();
                if(res) {
                    m_fetching_tickets = true;
                }
                if(m_tickets.empty() && !res) {
                    return false;
                }''', '''                m_fetching_tickets = fetch_tickets();
                if(!m_fetching_tickets && m_tickets.empty()) {
                    return false;
                }''')
Q('P09', TM + 'client.cpp', 'for(ticket_number_type i = range.first; i < range.second; i++) {\n                m_tickets.push(i);\n            }', 'auto n = range.first; while(n != range.second) { m_tickets.push(n); ++n; }')
Q('P09', TM + 'client.cpp', '''            if(m_callbacks.empty()) {
                m_fetching_tickets = false;
            } else {
                auto fetch_res = fetch_tickets();
                if(!fetch_res) {
                    m_fetching_tickets = false;
                }
            }''', '''            m_fetching_tickets = !m_callbacks.empty() && fetch_tickets();''')
DI = 'parsec/directory/impl.cpp'
B('P10', DI, 'auto shard = key_hash % m_n_shards;', 'auto shard = key_hash & (m_n_shards - 1);')
B('P10', DI, 'auto key_hash = m_siphash(key);', 'static size_t n = 0; auto key_hash = m_siphash(key) + n++;')
B('P10', DI, 'impl::impl(size_t n_shards) : m_n_shards(n_shards) {}', 'impl::impl(size_t n_shards) : m_n_shards(n_shards + 1) {}')
B('P10', 'util/common/hashmap.hpp', 'std::vector<unsigned char> arr(buf.size());\n            std::memcpy(arr.data(), buf.data(), buf.size());', 'std::vector<unsigned char> arr(buf.size());\n            std::memcpy(arr.data(), buf.data(), buf.size() / 2);')
Q('P10', DI, 'auto key_hash = m_siphash(key);', 'auto const key_hash = hashing::const_sip_hash<runtime_locking_shard::key_type>{}(key);')
Q('P10', 'util/common/hashmap.hpp', '''            std::vector<unsigned char> arr(buf.size());
            std::memcpy(arr.data(), buf.data(), buf.size());
            hasher.Write(arr.data(), arr.size());
            return hasher.Finalize();
        }
    };

    /// \\brief Uses''', '''            hasher.Write(static_cast<const unsigned char*>(buf.data()), buf.size());
            return hasher.Finalize();
        }
    };

    /// \\brief Uses''')
AG = 'parsec/agent/impl.cpp'
B('P11', AG, 'case state::function_started:\n                do_rollback(false);\n                return true;', 'case state::function_started:\n                do_rollback(true);\n                return true;')
B('P11', AG, '                m_wounded = false;\n                m_restarted = true;', '                m_restarted = true;')
B('P11', AG, 'm_restarted = true;\n                do_start();', 'm_restarted = true;\n                do_commit();')
B('P11', AG, 'do_rollback(m_permanent_error);', 'do_rollback(false);')
B('P11', AG, 'if(m_state != state::begin_sent) {\n            m_log->warn("handle_begin while not in begin_sent state");\n            return;', 'if(m_state != state::begin_sent) {\n            m_log->warn("handle_begin while not in begin_sent state");')
B('P11', AG, 'm_wounded = true;\n            }\n        }\n        res_cb', '}\n        }\n        res_cb')
B('P11', AG, 'if(m_is_readonly_run && locktype == broker::lock_type::write) {', 'if(m_is_readonly_run && m_wounded && locktype == broker::lock_type::write) {')
B('P11', AG, '        if(it == m_requested_locks.end()\n           || it->second == broker::lock_type::read) {\n            m_requested_locks[key] = locktype;', '        if(true) {\n            m_requested_locks[key] = locktype;')
B('P11', AG, '        if(it == m_requested_locks.end()\n           || it->second == broker::lock_type::read) {', '        if(it == m_requested_locks.end()) {')
B('P11', AG, 'if(reacq + 1 == reacq_locks->size()) {', 'if(reacq + 1 >= 1) {')
B('P11', AG, 'if(reacq + 1 == reacq_locks->size()) {', 'if(reacq == reacq_locks->size()) {')
B('P11', AG, 'm_is_readonly_run ? broker::lock_type::read : locktype;', 'locktype;')
B('P11', AG, 'm_state = state::function_get_error;\n', 'm_state = state::function_get_failed;\n')
B('P11', AG, 'if(!m_is_readonly_run) {\n            payload', 'if(true) {\n            payload')
B('P11', AG, 'if(e == runner::interface::error_code::wounded) {\n                               m_state = state::function_failed;', 'if(e == runner::interface::error_code::wounded) {\n                               m_state = state::function_exception;')
B('P11', AG, 'if(e == broker::interface::error_code::commit_hazard) {', 'if(e != broker::interface::error_code::commit_hazard) {')
B('P11', AG, '                        m_state = state::commit_error;\n                        m_log->error("Shard error for commit for",\n                                     m_ticket_number.value());\n                        m_result', '                        m_state = state::commit_failed;\n                        m_log->error("Shard error for commit for",\n                                     m_ticket_number.value());\n                        m_result')
B('P11', AG, 'case state::commit_error:\n            case state::function_exception:\n                do_rollback(true);', 'case state::function_exception:\n                do_rollback(true);')
B('P11', AG, 'm_permanent_error = finish;', 'm_permanent_error = m_permanent_error || finish;')
B('P11', AG, 'm_permanent_error = finish;\n', '')
B('P11', AG, 'm_result = error_code::retry;\n', '')
B('P11', AG, 'if(finish_res.has_value()) {', 'if(finish_res.has_value() && !m_permanent_error) {')
B('P11', AG, 'get_result_callback()(error_code::finish_error);', 'm_result = error_code::finish_error; do_result();')
B('P11', AG, 'if(m_permanent_error) {\n            m_log', 'if(!m_permanent_error) {\n            m_log')
B('P11', AG, 'is_readonly_run ? broker::lock_type::read', 'is_readonly_run ? broker::lock_type::write')
B('P11', AG, 'm_is_readonly_run && get_function().size() == 0', 'get_function().size() == 0')
B('P11', AG, 'm_initial_lock_type,\n                [this](', 'broker::lock_type::read,\n                [this](')
B('P11', AG, '(*reacq_locks).swap(m_requested_locks);', '*reacq_locks = m_requested_locks;')
B('P11', AG, 'm_state = state::function_failed;\n            m_log->error("Failed to start', 'm_log->error("Failed to start')
B('P11', AG, '        std::unique_lock l(m_mut);\n        if(m_state != state::commit_sent) {', '        if(m_state != state::commit_sent) {')
B('P11', AG, 'return m_broker->try_lock(\n            m_ticket_number.value(),\n            std::move(key),', 'return m_broker->try_lock(\n            m_ticket_number.value(),\n            get_function(),')
Q('P11', AG, 'if(m_state != state::begin_sent) {\n            m_log->warn("handle_begin while not in begin_sent state");\n            return;\n        }', 'const auto expected = m_state == state::begin_sent;\n        if(!expected) {\n            m_log->warn("handle_begin while not in begin_sent state");\n            return;\n        }')
Q('P11', AG, '''                           if(e == runner::interface::error_code::wounded) {
                               m_state = state::function_failed;
                           } else if(e''', '''                           const auto wnd = e == runner::interface::error_code::wounded;
                           if(wnd) {
                               m_state = state::function_failed;
                           } else if(e''')
Q('P11', AG, '''        auto it = m_requested_locks.find(key);
        if(it == m_requested_locks.end()
           || it->second == broker::lock_type::read) {
            m_requested_locks[key] = locktype;
        }''', '''        auto [it, added] = m_requested_locks.try_emplace(key, locktype);
        if(!added && it->second == broker::lock_type::read) {
            it->second = locktype;
        }''')
Q('P11', AG, '''        if(finish_res.has_value()) {
            m_state = state::finish_failed;
            m_log->error("Broker error for finish for",
                         m_ticket_number.value());
            // Keep m_result for when the retried finish completes
            get_result_callback()(error_code::finish_error);
        } else {
            m_state = state::finish_complete;
            m_log->trace(this,
                         "Agent handled finish for",
                         m_ticket_number.value());
            do_result();
        }''', '''        if(!finish_res.has_value()) {
            m_state = state::finish_complete;
            do_result();
            return;
        }
            m_state = state::finish_failed;
            const auto cb = get_result_callback();
            cb(error_code::finish_error);''')
Q('P11', AG, '''                    for(auto& it : *reacq_locks) {
                        m_log->trace("Re-acquiring lock on",
                                     it.first.to_hex(),
                                     "type",
                                     static_cast<int>(it.second),
                                     "for",
                                     m_ticket_number.value());
                        auto success = do_try_lock_request(
                            it.first,
                            it.second,''', '''                    for(const auto& [k_, t_] : *reacq_locks) {
                        auto success = do_try_lock_request(
                            k_,
                            t_,''')
LS = 'parsec/agent/runners/lua/server.cpp'
B('P12', LS, 'm_retry_queue.push(id);\n                            return;', 'm_retry_queue.push(id);')
B('P12', LS, 'm_retry_queue.push(id);\n', '')
B('P12', LS, 'callback(res);\n                    m_cleanup_queue.push(id);', 'm_cleanup_queue.push(id);\n                    callback(res);')
B('P12', LS, 'm_cleanup_queue.push(id);', 'm_cleanup_queue.push(m_next_id);')
B('P12', LS, 'req.m_is_readonly_run,', 'false,')
B('P12', LS, 'm_agents.emplace(id, agent);', '')
B('P12', LS, 'std::unique_lock l(m_agents_mut);\n', '')
B('P12', 'parsec/agent/server_interface.cpp', 'if(!a->exec()) {\n                    m_log->fatal("Error retrying agent");\n                }', '(void)a;')
B('P12', 'parsec/agent/server_interface.cpp', 'while(m_cleanup_queue.pop(id)) {\n                std::unique_lock l(m_agents_mut);', 'while(m_cleanup_queue.pop(id)) {')
B('P12', 'parsec/agent/server_interface.cpp', 'm_agents.erase(id);', 'm_agents.clear();')
B('P12', 'parsec/agent/client.cpp', 'std::move(param), is_readonly_run}', 'std::move(param), false}')
B('P12', 'parsec/agent/runners/evm/http_server.cpp', 'm_retry_queue.push(id);\n                    } else {', 'm_retry_queue.push(id);\n                    } {')
B('P12', 'parsec/agent/runners/evm/http_server.cpp', 'm_retry_queue.push(id);', 'm_cleanup_queue.push(id);')
Q('P12', LS, '''auto success = std::holds_alternative<return_type>(res);
                    if(!success) {
                        auto ec = std::get<interface::error_code>(res);
                        if(ec == interface::error_code::retry) {
                            m_retry_queue.push(id);
                            return;
                        }
                    }''', '''const auto* ec = std::get_if<interface::error_code>(&res);
                    if(ec != nullptr && *ec == interface::error_code::retry) {
                        m_retry_queue.push(id);
                        return;
                    }''')
Q('P12', 'parsec/agent/server_interface.cpp', '''auto a = [&]() {
                    std::unique_lock l(m_agents_mut);
                    auto it = m_agents.find(id);
                    assert(it != m_agents.end());
                    return it->second;
                }();''', '''std::shared_ptr<agent::impl> a;
                {
                    std::unique_lock l(m_agents_mut);
                    a = m_agents.at(id);
                }''')

# ---- network
TCH = 'util/rpc/tcp_client.hpp'
CLH = 'util/rpc/client.hpp'
ASH = 'util/rpc/async_server.hpp'
BSH = 'util/rpc/blocking_server.hpp'
CMC = 'util/network/connection_manager.cpp'
PEC = 'util/network/peer.cpp'
SOC = 'util/network/tcp_socket.cpp'
TLC = 'util/network/tcp_listener.cpp'
BQH = 'util/common/blocking_queue.hpp'
TPC = 'util/common/thread_pool.cpp'
B('N01', CLH, 'auto request_id = m_current_request_id++;', 'auto request_id = m_current_request_id.load(); m_current_request_id = request_id + 1;')
B('N01', CLH, 'auto request_id = m_current_request_id++;', 'auto request_id = m_current_request_id.load();')
B('N01', CLH, 'auto req = request_type{{request_id}, std::move(request_payload)};', 'auto req = request_type{{request_id + 1}, std::move(request_payload)};')
B('N01', TCH, 'm_responses[request_id] = std::move(response_action);\n            }\n            auto pkt = std::make_shared<buffer>(std::move(request_buf));\n            return m_net.send_to_one(pkt);', '}\n            auto pkt = std::make_shared<buffer>(std::move(request_buf));\n            auto r = m_net.send_to_one(pkt);\n std::unique_lock<std::mutex> l(m_responses_mut); m_responses[request_id] = std::move(response_action); return r;')
B('N01', TCH, 'return m_responses.extract(request_id);', 'return m_responses.extract(m_responses.begin());')
B('N01', TCH, 'std::unique_lock<std::mutex> l(m_responses_mut);\n                return m_responses.extract(request_id);', 'return m_responses.extract(request_id);')
B('N01', TCH, '''                if(res == std::future_status::timeout) {
                    set_response(request_id, std::nullopt);
                    return std::nullopt;''', '''                if(res == std::future_status::timeout) {
                    return std::nullopt;''')
B('N01', TCH, '''                    std::unique_lock<std::mutex> l(m_responses_mut);
                    m_responses.erase(request_id);
                }
                return false;''', '''                }
                return false;''')
B('N01', TCH, '''            for(auto& [request_id, action] : responses) {
                set_response_value(action, std::nullopt);
            }
''', '')
B('N01', TCH, 'if(!m_net.cluster_connect(m_server_endpoints,\n                                      error_fatal.value())) {\n                return false;', 'if(!m_net.cluster_connect(m_server_endpoints,\n                                      error_fatal.value())) {\n                return true;')
B('N01', ASH, '''                if(!success) {
                    return server_type::template serialize_response<Response>(
                        std::move(req.value().m_header),
                        std::nullopt);
                }''', '(void)success;')
B('N01', ASH, 'if(!success) {\n                    return maybe_failure;', 'if(success) {\n                    return maybe_failure;')
B('N01', BSH, 'std::move(req.value().m_header),\n                std::move(resp));', '{},\n                std::move(resp));')
Q('N01', TCH, '''            auto response_node = [&]() {
                std::unique_lock<std::mutex> l(m_responses_mut);
                return m_responses.extract(request_id);
            }();

            if(!response_node.empty()) {
                set_response_value(response_node.mapped(), std::move(value));
            }''', '''            std::unique_lock<std::mutex> l(m_responses_mut);
            auto it = m_responses.find(request_id);
            if(it == m_responses.end()) { return; }
            auto act = std::move(it->second);
            m_responses.erase(it);
            l.unlock();
            set_response_value(act, std::move(value));''')
Q('N01', CLH, '''            if(!resp.has_value()) {
                return std::nullopt;
            }
            assert(resp.value().m_header.m_request_id == request_id);
            return resp.value().m_payload;''', '''            if(resp.has_value()) {
                return std::move(resp->m_payload);
            }
            return std::nullopt;''')
Q('N01', CLH, '''            auto ret = call_raw(std::move(request_buf),
                                request_id,
                                [resp_cb = std::move(response_callback)](
                                    std::optional<response_type> resp) {
                                    if(!resp.has_value()) {
                                        return;
                                    }
                                    resp_cb(std::move(resp.value().m_payload));
                                });
            return ret;''', '''            auto on_response = [resp_cb = std::move(response_callback)](
                                    std::optional<response_type> resp) {
                                    if(resp) {
                                    resp_cb(std::move(resp->m_payload)); }
                                };
            return call_raw(std::move(request_buf), request_id, on_response);''')
Q('N01', BSH, 'if(m_callback) {\n                resp = m_callback(std::move(req.value().m_payload));\n            }', 'if(m_callback != nullptr) {\n                auto& payload = req->m_payload;\n resp = m_callback(std::move(payload));\n            }')
# N02
B('N02', CMC, 'if(!q.empty()) {\n                        m_async_recv_data = true;', 'if(q.size() > 1) {\n                        m_async_recv_data = true;')
B('N02', CMC, '                    q.pop();\n', '')
B('N02', CMC, 'pkts.push_back(std::move(q.front()));', 'pkts.push_back(std::move(q.back()));')
B('N02', CMC, 'q_idx = m_async_recv_queues.size() - 1;', 'q_idx = peer_id % m_async_recv_queues.size();')
B('N02', CMC, 'const auto peer_id = m_next_peer_id++;', 'const auto peer_id = m_peers.size();')
B('N02', CMC, 'm_async_recv_data = true;\n            }\n            m_async_recv_cv.notify_one();', '}\n            m_async_recv_cv.notify_one();')
B('N02', CMC, 'std::lock_guard<std::mutex> ll(m_async_recv_mut);\n', '')
B('N02', CMC, 'auto pid = pkt.m_peer_id;', 'auto pid = pkts.front().m_peer_id;')
B('N02', CMC, 'if(p.m_peer_id == peer_id) {\n                    peer = p.m_peer;\n                    break;', 'if(p.m_peer_id >= peer_id) {\n                    peer = p.m_peer;\n                    break;')
B('N02', CMC, 'if(p.m_peer->connected()) {\n                    p.m_peer->send(data);\n                    sent = true;\n                    break;', 'if(p.m_peer->connected()) {\n                    p.m_peer->send(data);\n                    sent = true;')
B('N02', CMC, 'i < m_peers.size(); i++) {\n                auto idx', 'i + 1 < m_peers.size(); i++) {\n                auto idx')
B('N02', CMC, 'if(m_running) {\n                m_peers.emplace_back(std::move(p), peer_id);\n            }', 'm_peers.emplace_back(std::move(p), peer_id);')
B('N02', CMC, '                if(error_fatal) {\n                    return false;\n                }', '                if(error_fatal) {\n                    return false;\n                }\n continue;')
Q('N02', CMC, '''            for(const auto& p : m_peers) {
                if(p.m_peer_id == peer_id) {
                    peer = p.m_peer;
                    break;
                }
            }
        }

        if(peer) {''', '''            auto it = std::find_if(m_peers.begin(), m_peers.end(), [&](const auto& p) { return p.m_peer_id == peer_id; });
            if(it != m_peers.end()) { peer = it->m_peer; }
        }

        if(peer != nullptr) {''', (CMC, '#include "connection_manager.hpp"', '#include "connection_manager.hpp"\n#include <algorithm>'))
Q('N02', CMC, '''                if(!q.empty()) {
                    pkts.push_back(std::move(q.front()));
                    q.pop();

                    // The queue still has packets so don't block
                    // next call.
                    if(!q.empty()) {
                        m_async_recv_data = true;
                    }
                }''', '''                if(q.empty()) { continue; }
                    pkts.emplace_back(std::move(q.front()));
                    q.pop();
                    m_async_recv_data = m_async_recv_data || !q.empty();''')
Q('N02', CMC, '''            m_async_recv_cv.wait(l, [&]() {
                if(!m_running) {
                    return true;
                }

                return m_async_recv_data;
            });''', '''            m_async_recv_cv.wait(l, [this]() { return m_async_recv_data || !m_running; });''')
Q('N02', CMC, '''                    if(!pkt.m_pkt) {
                        continue;
                    }

                    auto pid = pkt.m_peer_id;
                    auto res = handler(std::move(pkt));

                    if(res.has_value()) {
                        send(std::make_shared<buffer>(std::move(res.value())),
                             pid);
                    }''', '''                    if(pkt.m_pkt) {
                    const auto sender = pkt.m_peer_id;
                    if(auto res = handler(std::move(pkt))) {
                        auto out = std::make_shared<buffer>(std::move(*res));
                        send(out, sender);
                    } }''')
Q('N02', CMC, '''            if(!ep_sock->connect(ep)) {
                if(error_fatal) {
                    return false;
                }
            }''', '''            const auto up = ep_sock->connect(ep);
            if(!up && error_fatal) { return false; }''')
# N03
B('N03', SOC, '&sz_arr.at(total_written),', 'sz_arr.data(),')
B('N03', SOC, 'pkt.data_at(total_written),', 'pkt.data(),')
B('N03', SOC, '            total_read += static_cast<uint64_t>(n);\n            pkt.append(buf.data(), static_cast<size_t>(n));', '            total_read += static_cast<uint64_t>(n);\n            pkt.append(buf.data(), buf_sz);')
B('N03', SOC, '        pkt.clear();\n\n', '')
B('N03', SOC, 'pkt.size() - total_written);\n            if(n <= 0) {', 'pkt.size() - total_written);\n            if(n < 0) {')
B('N03', SOC, 'pkt.size() - total_written);', 'pkt.size());')
B('N03', SOC, '                ::close(m_sock_fd);\n                m_sock_fd = -1;\n                continue;', '                ::close(m_sock_fd);\n                continue;')
B('N03', SOC, '            close(m_sock_fd);\n            m_sock_fd = -1;', '            close(m_sock_fd);')
B('N03', SOC, '            m_connected = false;\n', '')
B('N03', SOC, 'disconnect();\n        if(!m_addr)', 'if(!m_addr)')
B('N03', TLC, '            m_sock_fd = -1;\n                continue;', '                continue;')
Q('N03', SOC, '''        total_written = 0;
        while(total_written
              != static_cast<decltype(total_written)>(pkt.size())) {
            auto n = write(m_sock_fd,
                           pkt.data_at(total_written),
                           pkt.size() - total_written);
            if(n <= 0) {
                return false;
            }
            total_written += static_cast<size_t>(n);
        }''', '''        const auto len = pkt.size();
        for(size_t done = 0; done < len;) {
            const auto n = write(m_sock_fd, pkt.data_at(done), len - done);
            if(n <= 0) { return false; }
            done += static_cast<size_t>(n);
        }''')
Q('N03', SOC, '''            m_connected = false;
            shutdown(m_sock_fd, SHUT_RDWR);
            close(m_sock_fd);
            m_sock_fd = -1;''', '''            shutdown(m_sock_fd, SHUT_RDWR);
            close(m_sock_fd);
            m_connected = false;
            m_sock_fd = -1;''')
Q('N03', SOC, '''            if(::connect(m_sock_fd, res->ai_addr, res->ai_addrlen) != 0) {
                ::close(m_sock_fd);
                m_sock_fd = -1;
                continue;
            }

            break;''', '''            const auto rc = ::connect(m_sock_fd, res->ai_addr, res->ai_addrlen);
            if(rc == 0) { break; }
                ::close(m_sock_fd);
                m_sock_fd = -1;''')
# N04
B('N04', PEC, 'if(!m_shut_down) {\n            m_send_queue.push(data);\n        }', 'm_send_queue.push(data);')
B('N04', PEC, 'if(!result) {\n                        signal_reconnect();\n                        return;', 'if(!result) {\n                        signal_reconnect();\n                        m_send_queue.push(pkt); return;')
B('N04', PEC, 'if(!result) {\n                        signal_reconnect();\n                        return;', 'if(!result) {\n                        return;')
B('N04', PEC, '            while(m_running) {\n                auto pkt = std::make_shared<cbdc::buffer>();', '            auto pkt = std::make_shared<cbdc::buffer>();\n            while(m_running) {')
B('N04', PEC, 'm_recv_cb(std::move(pkt));', 'if(pkt->size() > 0) { m_recv_cb(std::move(pkt)); }')
B('N04', PEC, 'if(!m_shut_down) {\n                        m_running = true;\n                        do_send();\n                        do_recv();', 'if(!m_shut_down) {\n                        do_send();\n                        do_recv();\n m_running = true;')
B('N04', PEC, 'm_running = true;\n                        do_send();\n                        do_recv();', 'm_running = true;\n                        do_recv();')
B('N04', PEC, '                    m_reconnect = false;\n', '')
B('N04', PEC, 'return m_reconnect || m_shut_down;', 'return m_reconnect;')
B('N04', PEC, '            m_shut_down = true;\n        }\n        m_reconnect_cv.notify_one();', '            m_shut_down = true;\n        }')
B('N04', PEC, 'm_send_queue.clear();\n        if(m_send_thread.joinable()) {', 'if(m_send_thread.joinable()) {')
B('N04', PEC, '        m_send_queue.reset();\n', '')
B('N04', PEC, '        m_sock->disconnect();\n', '')
B('N04', PEC, 'if(m_attempt_reconnect) {\n                    close();', 'if(m_attempt_reconnect) {')
B('N04', PEC, 'm_shut_down = true;\n                    close();', 'close();')
B('N04', PEC, 'std::lock_guard<std::mutex> l(m_reconnect_mut);\n            m_reconnect = true;', 'm_reconnect = true;')
B('N04', CMC, 'peer.m_peer->shutdown();', 'if(peer.m_peer->connected()) { peer.m_peer->shutdown(); }')
B('N04', CMC, '        m_async_recv_cv.notify_all();\n', '')
B('N04', CMC, '        m_listen_selector.unblock();\n', '')
Q('N04', PEC, '''                std::shared_ptr<cbdc::buffer> pkt;
                if(!m_send_queue.pop(pkt)) {
                    assert(!m_running);
                    break;
                }

                if(pkt) {
                    const auto result = m_sock->send(*pkt);
                    if(!result) {
                        signal_reconnect();
                        return;
                    }
                }''', '''                std::shared_ptr<cbdc::buffer> pkt{};
                if(!m_send_queue.pop(pkt)) { return; }
                if(pkt == nullptr) { continue; }
                if(!m_sock->send(*pkt)) { signal_reconnect(); break; }''')
Q('N04', PEC, '''                auto pkt = std::make_shared<cbdc::buffer>();
                if(!m_sock->receive(*pkt)) {
                    signal_reconnect();
                    return;
                }

                m_recv_cb(std::move(pkt));''', '''                auto data = std::make_shared<cbdc::buffer>();
                const auto ok = m_sock->receive(*data);
                if(ok) { m_recv_cb(std::move(data)); } else { signal_reconnect(); break; }''')
Q('N04', PEC, '''                if(m_shut_down) {
                    break;
                }
                if(m_attempt_reconnect) {''', '''                if(m_shut_down) {
                    return;
                }
                if(m_attempt_reconnect) {''')
Q('N04', PEC, 'if(!m_shut_down) {\n            m_send_queue.push(data);\n        }', 'if(m_shut_down) { return; }\n m_send_queue.push(data);')
Q('N04', PEC, 'return !m_shut_down && m_running && m_sock->connected();', 'if(m_shut_down || !m_running) { return false; } return m_sock->connected();')
# N05
B('N05', BQH, 'm_buffer.push(item);\n                m_wake = true;', 'm_buffer.push(item);')
B('N05', BQH, 'm_wake = !m_buffer.empty();', 'm_wake = false;')
B('N05', BQH, 'm_wake = !m_buffer.empty();', '')
B('N05', BQH, 'm_cv.notify_all();', 'm_cv.notify_one();')
B('N05', BQH, 'm_buffer = decltype(m_buffer)();\n                m_wake = true;', 'm_buffer = decltype(m_buffer)();')
B('N05', BQH, 'return m_wake;', 'return !m_buffer.empty();')
B('N05', BQH, 'return m_buffer.front();', 'return m_buffer.back();')
B('N05', TPC, 'if(thr->m_running) {\n                continue;\n            }', '')
B('N05', TPC, 'f();\n            thr->m_running = false;', 'thr->m_running = false;\n            f();')
B('N05', TPC, '            thr->m_running = true;\n            thr->m_queue.push(fn);\n            launched', '            thr->m_queue.push(fn);\n            launched')
B('N05', TPC, 'launched = true;\n            break;', 'launched = true;')
B('N05', TPC, 't->m_queue.clear();\n', '')
Q('N05', BQH, '''                bool popped{false};
                if(!m_buffer.empty()) {
                    item = std::move(first_item<T, Q>());
                    m_buffer.pop();
                    popped = true;
                    m_wake = !m_buffer.empty();
                }

                return popped;''', '''                if(m_buffer.empty()) { return false; }
                    item = first_item<T, Q>();
                    m_buffer.pop();
                    if(m_buffer.empty()) { m_wake = false; } else { m_wake = true; }
                return true;''')
Q('N05', BQH, 'auto sz = [&]() {\n                std::unique_lock<std::mutex> lck(m_mut);\n                m_buffer.push(item);\n                m_wake = true;\n                return m_buffer.size();\n            }();', 'size_t sz{};\n { std::lock_guard<std::mutex> lck(m_mut); m_wake = true; m_buffer.emplace(item); sz = m_buffer.size(); }')
Q('N05', TPC, '''        auto launched = false;
        for(auto& thr : m_threads) {
            if(thr->m_running) {
                continue;
            }

            thr->m_running = true;
            thr->m_queue.push(fn);
            launched = true;
            break;
        }
        if(launched) {
            return;
        }''', '''        for(auto& thr : m_threads) {
            if(!thr->m_running) {
            thr->m_running = true;
            thr->m_queue.push(fn);
            return; }
        }''')
Q('N05', TPC, 'auto f = std::function<void()>();\n        while(thr->m_queue.pop(f)) {', 'for(std::function<void()> f; thr->m_queue.pop(f);) {')

ASV = 'util/rpc/async_server.hpp'
BRI = 'parsec/broker/impl.cpp'
TWC = 'uhs/client/twophase_client.cpp'
TKC = 'parsec/ticket_machine/client.cpp'
WTC = 'uhs/atomizer/watchtower/watchtower.cpp'
WAL = 'uhs/transaction/wallet.cpp'
LSH = 'uhs/twophase/locking_shard/locking_shard.cpp'
B('X01', BRI, '''                   [=, this](const parsec::runtime_locking_shard::interface::
                                 try_lock_return_type& lock_res) {''', '''                   [&](const parsec::runtime_locking_shard::interface::
                                 try_lock_return_type& lock_res) {''')
B('X01', TWC, '[&, done, tx_id = ctx.m_id](std::optional<bool> success) {', '[&, done](std::optional<bool> success) { const auto& tx_id = ctx.m_id;')
B('X01', TWC, 'auto done = std::make_shared<std::promise<void>>();', 'auto prom = std::promise<void>();\n auto* done = &prom;')
B('X01', 'parsec/agent/agentd.cpp', 'auto recover_success = std::make_shared<std::promise<bool>>();', 'auto recover_prom = std::promise<bool>();\n auto* recover_success = &recover_prom;')
B('X01', 'parsec/agent/runners/evm/host.cpp', 'auto status = res_fut.wait_for(std::chrono::seconds(1));', 'if(i > 100) { return std::nullopt; }\n auto status = res_fut.wait_for(std::chrono::seconds(1));')
B('X01', 'uhs/twophase/coordinator/controller.cpp', '''        // Make sure we recovered fully before returning
        join_execs();
''', '')
Q('X01', BRI, '''                   [=, this](const parsec::runtime_locking_shard::interface::
                                 try_lock_return_type& lock_res) {''', '''                   [ticket_number, key, shard_idx, result_callback, this](const parsec::runtime_locking_shard::interface::
                                 try_lock_return_type& lock_res) {''')
B('X02', TKC, '''            num = m_tickets.front();
            m_tickets.pop();
        }

        result_callback(ticket_number_range_type{num, num});
        return true;''', '''            num = m_tickets.front();
            m_tickets.pop();
        result_callback(ticket_number_range_type{num, num});
        return true;
        }''')
B('X02', 'util/rpc/tcp_client.hpp', '''            auto response_node = [&]() {
                std::unique_lock<std::mutex> l(m_responses_mut);
                return m_responses.extract(request_id);
            }();
''', '''            std::unique_lock<std::mutex> l(m_responses_mut);
            auto response_node = m_responses.extract(request_id);
''')
B('X02', WTC, '''        std::shared_lock lk0(m_bc_mut, std::defer_lock);
        std::unique_lock lk1(m_ec_mut, std::defer_lock);
        std::lock(lk0, lk1);''', '''        std::shared_lock lk0(m_bc_mut);
        std::unique_lock lk1(m_ec_mut);''', (WTC, '''            std::shared_lock lk0(m_bc_mut, std::defer_lock);
            std::shared_lock lk1(m_ec_mut, std::defer_lock);
            std::lock(lk0, lk1);''', '''            std::shared_lock lk1(m_ec_mut);
            std::shared_lock lk0(m_bc_mut);'''))
B('X02', 'parsec/agent/server_interface.cpp', '''                std::unique_lock l(m_agents_mut);
                m_agents.erase(id);
            }''', '''                std::unique_lock l(m_agents_mut);
                m_agents.erase(id);
            }
 ''', ('parsec/agent/server_interface.cpp', '''        m_cleanup_queue.clear();
        m_cleanup_thread.join();''', '''        std::unique_lock ll(m_agents_mut);
        m_cleanup_queue.clear();
        m_cleanup_thread.join();'''))
B('X02', 'parsec/agent/server_interface.cpp', '''                auto a = [&]() {
                    std::unique_lock l(m_agents_mut);
                    auto it = m_agents.find(id);
                    assert(it != m_agents.end());
                    return it->second;
                }();
                if(!a->exec()) {''', '''                std::unique_lock l(m_agents_mut);
                auto it = m_agents.find(id);
                assert(it != m_agents.end());
                auto a = it->second;
                if(!a->exec()) {''')
Q('X02,X03', WTC, '''        std::shared_lock lk0(m_bc_mut, std::defer_lock);
        std::unique_lock lk1(m_ec_mut, std::defer_lock);
        std::lock(lk0, lk1);''', '''        std::shared_lock lk0(m_bc_mut);
        std::unique_lock lk1(m_ec_mut);''')
B('X03', WTC, '        std::unique_lock lk(m_bc_mut);\n        m_bc.push_block', '        std::shared_lock lk(m_bc_mut);\n        m_bc.push_block')
B('X03', WTC, '''        std::shared_lock lk(m_bc_mut);
        return std::make_unique<response>(
            best_block_height_response{m_bc''', '''        return std::make_unique<response>(
            best_block_height_response{m_bc''')
B('X03', 'parsec/agent/server_interface.cpp', '''                std::unique_lock l(m_agents_mut);
                m_agents.erase(id);''', 'm_agents.erase(id);')
B('X03', 'util/common/random_source.cpp', 'std::unique_lock<std::mutex> l(m_mut);', '')
Q('X03', WTC, '        std::unique_lock lk(m_bc_mut);\n        m_bc.push_block', '        const std::lock_guard<std::shared_mutex> lk{m_bc_mut};\n        m_bc.push_block')
Q('X03', 'parsec/agent/server_interface.cpp', '''                auto a = [&]() {
                    std::unique_lock l(m_agents_mut);
                    auto it = m_agents.find(id);
                    assert(it != m_agents.end());
                    return it->second;
                }();''', '''                std::unique_lock l(m_agents_mut);
                auto it = m_agents.find(id);
                assert(it != m_agents.end());
                auto a = it->second;
                l.unlock();''')

# ---- Z01, Z02: wire formats
TMS = 'uhs/transaction/messages.cpp'
RFM = 'parsec/runtime_locking_shard/format.cpp'
SFM = 'util/serialization/format.hpp'
SFC = 'util/serialization/format.cpp'
BSC = 'util/serialization/buffer_serializer.cpp'
B('Z01', RFM, 'deser >> req.m_ticket_number >> req.m_broker_id >> req.m_key', 'deser >> req.m_broker_id >> req.m_ticket_number >> req.m_key')
B('Z01', TMS, 'packet >> e.m_code >> e.m_data_err >> e.m_idx', 'packet >> e.m_code >> e.m_data_err')
B('Z01', TMS, 'return packet << tx.m_inputs << tx.m_outputs << tx.m_witness;', 'return packet << tx.m_inputs << tx.m_outputs << std::vector<witness_t>(tx.m_witness.begin(), tx.m_witness.begin() + static_cast<long>(tx.m_inputs.size()));')
B('Z01', SFM, 'packet << static_cast<T>(vec[i]);', 'packet << static_cast<T>(vec[len - 1 - i]);')
B('Z01', SFM, 'for(uint64_t i = 0; i < len; i++) {\n            auto key = K();', 'for(uint64_t i = 1; i < len; i++) {\n            auto key = K();')
B('Z01', SFM, 'vec.push_back(std::move(val));\n                } else {', 'if(allocated == len) vec.push_back(std::move(val)); else vec.insert(vec.begin(), std::move(val));\n                } else {')
B('Z01', BSC, 'm_pkt.extend(m_cursor + len - m_pkt.size());', 'm_pkt.extend(len);')
B('Z01', 'util/serialization/size_serializer.cpp', '''size_t len) -> bool {
        m_cursor += len;''', '''size_t len) -> bool {
        m_cursor = len;''')
Q('Z01', TMS, 'return packet >> tx.m_inputs >> tx.m_outputs >> tx.m_witness;', 'packet >> tx.m_inputs;\n        packet >> tx.m_outputs;\n        packet >> tx.m_witness;\n        return packet;')
Q('Z01', SFM, '''        for(uint64_t i = 0; i < len; i++) {
            packet << static_cast<T>(vec[i]);
        }''', '''        for(const auto& v : vec) {
            packet << static_cast<T>(v);
        }''')
Q('Z01,Z02', BSC, '''        if(m_cursor + len > m_pkt.size()) {
            m_pkt.extend(m_cursor + len - m_pkt.size());
        }''', '''        const auto needed = m_cursor + len;
        if(needed > m_pkt.size()) {
            const auto missing = needed - m_pkt.size();
            m_pkt.extend(missing);
        }''')
B('Z02', BSC, '''        if(m_cursor + len > m_pkt.size()) {
            m_valid''', '''        if(m_cursor > m_pkt.size()) {
            m_valid''')
B('Z02', BSC, '            m_valid = false;\n            return false;', '            return false;')
B('Z02', 'util/raft/serialization.cpp', '''len) -> bool {
        if(m_buf.pos() + len > m_buf.size()) {
            m_valid = false;
            return false;
        }
        std::memcpy(data, m_buf''', '''len) -> bool {
        std::memcpy(data, m_buf''')
B('Z02', 'util/serialization/istream_serializer.cpp', '''            return false;
        }

        std::memcpy''', '''        }

        std::memcpy''')
B('Z02', 'util/serialization/istream_serializer.cpp', 'std::memcpy(data, read_vec.data(), len);', 'std::memcpy(data, read_vec.data(), len / 2);')
B('Z02', SFM, '            vec.reserve(allocated);', '            vec.reserve(len);')
B('Z02', SFM, '            map.reserve(allocated);', '            map.reserve(len);')
B('Z02', SFM, 'if(var_idx >= sizeof...(Ts)) {', 'if(var_idx > sizeof...(Ts)) {')
B('Z02', SFM, 'deser.set_failed();\n                i = 0;', 'i = 0;')
B('Z02', SFM, '''            auto key = K();
            if(!(deser >> key)) {
                return deser;
            }
            set.emplace''', '''            auto key = K();
            deser >> key;
            set.emplace''')
B('Z02', SFC, '        b.clear();\n', '')
B('Z02', SFC, 'std::min(sz - offset, config::maximum_reservation)', 'std::max(sz - offset, config::maximum_reservation)')
B('Z02', SFC, '            b.extend(len);\n            if(!deser.read(b.data_at(offset), len)) {', '            b.extend(len);\n            if(!deser.read(b.data_at(0), len)) {')
B('Z02', 'util/network/tcp_socket.cpp', 'std::min(pkt_sz, config::maximum_reservation));', 'pkt_sz);')
B('Z02', 'uhs/atomizer/watchtower/controller.cpp', '''    if(!maybe_errs.has_value()) {
        m_logger->error("Invalid internal request packet");
        return std::nullopt;
    }''', '''    if(!maybe_errs.has_value()) {
        m_logger->error("Invalid internal request packet");
    }''')
B('Z02', 'uhs/atomizer/watchtower/client.cpp', '                if(!deser) {\n                    return std::nullopt;\n                }\n', '')
B('Z02', 'uhs/twophase/locking_shard/locking_shard.cpp', 'return static_cast<bool>(deser);', 'return true;')
B('Z02', 'uhs/atomizer/shard/controller.cpp', '        if(!maybe_blk.has_value()) {', '        if(!maybe_blk.has_value() && pkt.m_peer_id == 0) {')
Q('Z02', SFC, '''            b.extend(len);
            if(!deser.read(b.data_at(offset), len)) {
                return deser;
            }''', '''            b.extend(len);
            const auto ok = deser.read(b.data_at(offset), len);
            if(!ok) {
                break;
            }''')
Q('Z02', BSC, '''        if(m_cursor + len > m_pkt.size()) {
            m_valid = false;
            return false;
        }
        std::memcpy(data, m_pkt.data_at(m_cursor), len);
        m_cursor += len;
        return true;''', '''        const auto end = m_cursor + len;
        if(end <= m_pkt.size()) {
            std::memcpy(data, m_pkt.data_at(m_cursor), len);
            m_cursor = end;
            return true;
        }
        m_valid = false;
        return false;''')
Q('Z01,Z02', SFM, '''            allocated = std::min(
                len,
                allocated + config::maximum_reservation / sizeof(T));
            vec.reserve(allocated);''', '''            static constexpr auto chunk
                = config::maximum_reservation / sizeof(T);
            const auto next = allocated + chunk;
            allocated = std::min(len, next);
            vec.reserve(allocated);''')
Q('Z02', 'util/serialization/istream_serializer.cpp', '''        if(!m_str.read(read_vec.data(), static_cast<off_type>(len))) {
            return false;
        }
''', '''        m_str.read(read_vec.data(), static_cast<off_type>(len));
        if(!m_str) {
            return false;
        }
''')

AZ = 'uhs/atomizer/atomizer/atomizer.cpp'
B('A01', AZ, 'offset <= cache_check_range; offset++', 'offset < cache_check_range; offset++')
B('A01', AZ, 'for(size_t offset = 0; offset <= cache_check_range', 'for(size_t offset = 1; offset <= cache_check_range')
B('A01', AZ, 'm_spent[0].insert(tx.m_inputs.begin(), tx.m_inputs.end());', 'm_spent[m_spent_cache_depth].insert(tx.m_inputs.begin(), tx.m_inputs.end());')
B('A01', AZ, 'm_spent[0].insert(tx.m_inputs.begin(), tx.m_inputs.end());', 'm_spent[0].insert(tx.m_inputs.begin() + 1, tx.m_inputs.end());')
B('A01', AZ, 'add_tx_to_stxo_cache(txit);\n', '')
B('A01', AZ, 'height_offset > m_spent_cache_depth && !', 'height_offset > m_spent_cache_depth + 1 && !')
B('A01', AZ, '!tx.m_inputs.empty()', 'tx.m_inputs.size() > 1')
B('A01', AZ, 'for(size_t i = m_spent_cache_depth; i > 0; i--) {', 'for(size_t i = m_spent_cache_depth; i > 1; i--) {')
B('A01', AZ, 'for(size_t i = m_spent_cache_depth; i > 0; i--) {', 'for(size_t i = 1; i <= m_spent_cache_depth; i++) {')
B('A01', AZ, 'm_spent[0].clear();\n', '', (AZ, 'm_spent[i] = std::move(m_spent[i - 1]);', 'm_spent[i] = m_spent[i - 1];'))
B('A01', AZ, 'm_txs[i] = std::move(m_txs[i - 1]);', 'if(!m_txs[i - 1].empty()) { m_txs[i] = std::move(m_txs[i - 1]); }')
B('A01', AZ, 'm_best_height++;', 'if(!blk.m_transactions.empty()) { m_best_height++; }')
B('A01', AZ, 'blk.m_transactions.swap(m_complete_txs);', 'blk.m_transactions = m_complete_txs;')
B('A01', AZ, 'for(auto&& tx : m_txs[m_spent_cache_depth]) {', 'for(auto&& tx : m_txs[m_spent_cache_depth - 1]) {')
B('A01', AZ, 'oldest_attestation = offset;', 'oldest_attestation = std::max(oldest_attestation, height_offset);')
B('A01', AZ, 'it->second.insert(attestations.begin(), attestations.end());', 'it->second = std::move(attestations);')
B('A01', AZ, 'total_attestations.size() == txit.m_inputs.size()', 'total_attestations.size() >= txit.m_inputs.size()')
B('A01', AZ, 'offset <= m_spent_cache_depth; offset++', 'offset < m_spent_cache_depth; offset++')
B('A01', AZ, 'if(!err_set.empty()) {', 'if(err_set.size() == tx.m_inputs.size()) {')
B('A01', AZ, '''                } else {
                    m_txs[pending_offset.first].erase(pending_offset.second);
                }''', '                }')
B('A01', AZ, 'std::min<uint64_t>(height_offset, m_spent_cache_depth);\n\n        // Search', 'height_offset;\n\n        // Search')
B('A01', AZ, 'auto cache_check_range = oldest_attestation;', 'auto cache_check_range = std::min<uint64_t>(height_offset, m_spent_cache_depth);')
B('A01', AZ, 'm_txs.resize(stxo_cache_depth + 1);', 'm_txs.resize(stxo_cache_depth);')
B('A01', AZ, '''        add_tx_to_stxo_cache(tx);

        m_complete_txs.push_back(std::move(tx));''', '''        if(cache_check_range > 0) {
            add_tx_to_stxo_cache(tx);
        }

        m_complete_txs.push_back(std::move(tx));''')
Q('A01', AZ, '''        for(size_t offset = 0; offset <= cache_check_range; offset++) {
            for(const auto& inp : tx.m_inputs) {
                if(m_spent[offset].find(inp) != m_spent[offset].end()) {
                    err_set.insert(inp);
                }
            }
        }''', '''        for(const auto& inp : tx.m_inputs) {
            for(uint64_t i = 0; i < cache_check_range + 1; ++i) {
                const auto& spent = m_spent[i];
                if(spent.count(inp) == 0) {
                    continue;
                }
                err_set.emplace(inp);
            }
        }''')
Q('A01', AZ, 'm_spent[0].insert(tx.m_inputs.begin(), tx.m_inputs.end());', 'auto& now = m_spent[0];\n        for(const auto& inp : tx.m_inputs) { now.insert(inp); }')
Q('A01', AZ, 'm_spent[0].insert(tx.m_inputs.begin(), tx.m_inputs.end());', 'm_spent.front().insert(tx.m_inputs.begin(), tx.m_inputs.end());')
Q('A01', AZ, '''        for(size_t i = m_spent_cache_depth; i > 0; i--) {
            m_spent[i] = std::move(m_spent[i - 1]);
            m_txs[i] = std::move(m_txs[i - 1]);
        }''', '''        auto i = m_spent_cache_depth;
        while(i != 0) {
            m_spent[i].swap(m_spent[i - 1]);
            std::swap(m_txs[i], m_txs[i - 1]);
            --i;
        }''')
Q('A01', AZ, '''        for(size_t i = m_spent_cache_depth; i > 0; i--) {
            m_spent[i] = std::move(m_spent[i - 1]);
            m_txs[i] = std::move(m_txs[i - 1]);
        }''', '''        for(size_t i = m_spent_cache_depth; i > 0; i--) {
            m_spent[i] = std::move(m_spent[i - 1]);
        }
        for(size_t i = m_spent_cache_depth; i-- > 0;) {
            m_txs[i + 1] = std::move(m_txs[i]);
        }''')
Q('A01', AZ, 'blk.m_transactions.swap(m_complete_txs);', 'blk.m_transactions = std::move(m_complete_txs);\n        m_complete_txs.clear();')
Q('A01', AZ, '''                // Keep track of the oldest height offset that we're using
                // an attestation from.
                oldest_attestation = offset;
''', '                oldest_attestation = std::max(oldest_attestation, offset);\n')
Q('A01', AZ, '''        if(height_offset > m_spent_cache_depth && !tx.m_inputs.empty()) {
            return cbdc::watchtower::tx_error{
                tx.m_id,
                cbdc::watchtower::tx_error_stxo_range{}};
        }
        return std::nullopt;''', '''        const bool usable = height_offset <= m_spent_cache_depth || tx.m_inputs.empty();
        if(usable) { return std::nullopt; }
        return cbdc::watchtower::tx_error(tx.m_id, cbdc::watchtower::tx_error_stxo_range{});''')
Q('A01', AZ, '''                if(pending_offset.first == oldest_attestation) {
                    auto tx_ext = m_txs[pending_offset.first].extract(
                        pending_offset.second);
                    m_complete_txs.push_back(std::move(tx_ext.key()));
                } else {
                    m_txs[pending_offset.first].erase(pending_offset.second);
                }''', '''                const auto& [pos, entry] = pending_offset;
                if(pos != oldest_attestation) {
                    m_txs[pos].erase(entry);
                    continue;
                }
                auto node = m_txs[pos].extract(entry);
                m_complete_txs.emplace_back(std::move(node.key()));''')

AR = 'uhs/atomizer/atomizer/atomizer_raft.cpp'
ASM = 'uhs/atomizer/atomizer/state_machine.cpp'
ACO = 'uhs/atomizer/atomizer/controller.cpp'
B('A02', AR, '''               m_opts.m_attestation_threshold)) {''', '''               m_opts.m_attestation_threshold - 1)) {''')
B('A02', AR, '''                       to_string(notif.m_tx.m_id));
            return;''', '''                       to_string(notif.m_tx.m_id));''')
B('A02', AR, 'it->second.size() != it->first.m_inputs.size()', 'it->second.size() > it->first.m_inputs.size()')
B('A02', AR, 'it->second.size() != it->first.m_inputs.size()', 'it->second.size() + 1 < it->first.m_inputs.size()')
B('A02', AR, 'att.second < oldest', 'att.second > oldest')
B('A02', AR, 'if(oldest == 0 || att.second < oldest) {', 'if(oldest == 0) {')
B('A02', AR, 'agg.m_oldest_attestation = oldest;', 'agg.m_oldest_attestation = notif.m_block_height;')
B('A02', AR, 'std::swap(atns.m_agg_txs, m_complete_txs);', 'atns.m_agg_txs = m_complete_txs;')
B('A02', AR, 'auto tx = m_txs.extract(it);\n            return tx;', 'auto cp = m_txs;\n auto tx = cp.extract(cp.find(it->first));\n            return tx;')
B('A02', AR, 'return a.first == b.first;', 'return a == b;')
B('A02', AR, '            std::unique_lock l(m_txs_mut);\n', '')
B('A02', AR, '                auto attestations = attestation_set();', '                auto attestations = attestation_set(); if(notif.m_attestations.empty()) { return std::nullopt; }\n attestations.insert({0, notif.m_block_height});')
B('A02', ASM, 'errs.push_back(*err);', 'errs = {*err};')
B('A02', ASM, 'msg.m_oldest_attestation,', 'r.m_agg_txs.front().m_oldest_attestation,')
B('A02', ASM, 'if(it->second.m_height < r.m_block_height) {', 'if(it->second.m_height <= r.m_block_height) {')
B('A02', ASM, 'it = m_blocks->erase(it);', 'it = m_blocks->erase(it);\n break;')
B('A02', ASM, 'm_blocks->emplace(blk.m_height, blk);', 'if(!blk.m_transactions.empty()) { m_blocks->emplace(blk.m_height, blk); }')
B('A02', ASM, 'return make_block_response{blk, errs};', 'return make_block_response{blk, {}};')
B('A02', ASM, 'auto it = m_blocks->find(r.m_block_height);', 'auto it = m_blocks->find(r.m_block_height + 1);')
B('A02', ASM, '        m_last_committed_idx = log_idx;\n        auto req', '        m_last_committed_idx++;\n        auto req')
B('A02', ACO, 'm_notification_queue.push(notif);', 'm_raft_node.tx_notify(std::move(notif));\n m_notification_queue.push(notif);')
B('A02', ACO, 'if(!resp.m_errs.empty()) {', 'if(resp.m_blk.m_transactions.empty()) {')
B('A02', ACO, 'm_atomizer_network.broadcast(blk_pkt);', 'if(!resp.m_blk.m_transactions.empty()) { m_atomizer_network.broadcast(blk_pkt); }')
B('A02', ACO, 'm_watchtower_network.broadcast(resp);', '')
B('A02', ACO, 'if(m_raft_node.is_leader()) {\n                auto req', 'if(m_running) {\n                auto req')
B('A02', ACO, '''            if(!popped) {
                break;
            }
            m_raft_node.tx_notify(std::move(notif));''', '''            if(!popped || notif.m_attestations.empty()) {
                break;
            }
            m_raft_node.tx_notify(std::move(notif));''')
Q('A02', AR, '''                    auto n_it = it->second.find(p);
                    if((n_it != it->second.end()
                        && n_it->second < notif.m_block_height)
                       || n_it == it->second.end()) {
                        it->second.insert(std::move(p));
                    }''', '                    it->second.insert(p);')
Q('A02', AR, '''            if(oldest == 0 || att.second < oldest) {
                oldest = att.second;
            }''', '''            const auto height = att.second;
            if(oldest != 0 && oldest <= height) { continue; }
            oldest = height;''')
Q('A02', AR, '''        uint64_t oldest{0};
        for(const auto& att : tx.mapped()) {
            if(oldest == 0 || att.second < oldest) {
                oldest = att.second;
            }
        }''', '''        uint64_t oldest = std::numeric_limits<uint64_t>::max();
        for(const auto& [idx, height] : tx.mapped()) {
            oldest = std::min(oldest, height);
        }''')
Q('A02', AR, '            std::swap(atns.m_agg_txs, m_complete_txs);', '            atns.m_agg_txs = std::move(m_complete_txs);\n            m_complete_txs.clear();')
Q('A02', ASM, '''                    for(auto it = m_blocks->begin(); it != m_blocks->end();) {
                        if(it->second.m_height < r.m_block_height) {
                            it = m_blocks->erase(it);
                        } else {
                            it++;
                        }
                    }''', '''                    auto it = m_blocks->begin();
                    while(it != m_blocks->end()) {
                        const bool keep = it->second.m_height >= r.m_block_height;
                        if(keep) { ++it; continue; }
                        it = m_blocks->erase(it);
                    }''')
Q('A02', ASM, '''                    if(!errs.empty()) {
                        return errs;
                    }

                    return std::nullopt;''', '''                    if(errs.empty()) {
                        return std::nullopt;
                    }
                    return response(std::move(errs));''')
Q('A02', ASM, '''                    if(it != m_blocks->end()) {
                        return get_block_response{it->second};
                    }
                    return std::nullopt;''', '''                    if(m_blocks->count(r.m_block_height) == 0) { return std::nullopt; }
                    auto found = get_block_response();
                    found.m_blk = m_blocks->at(r.m_block_height);
                    return found;''')
Q('A02', ACO, '''        if(!m_raft_node.is_leader()) {
            return std::nullopt;
        }

        auto maybe_req = from_buffer<request>(*pkt.m_pkt);
        if(!maybe_req.has_value()) {''', '''        if(!m_raft_node.is_leader()) {
            m_logger->trace("Not the leader");
            return std::nullopt;
        }

        auto& buf = *pkt.m_pkt;
        auto maybe_req = from_buffer<request>(buf);
        if(!maybe_req) {''')

WBC, WEC, WTT, WCO = 'uhs/atomizer/watchtower/block_cache.cpp', 'uhs/atomizer/watchtower/error_cache.cpp', 'uhs/atomizer/watchtower/watchtower.cpp', 'uhs/atomizer/watchtower/controller.cpp'
B('W01', WBC, '(m_blks.size() == m_k_blks)', '(m_blks.size() + 1 == m_k_blks)')
B('W01', WBC, '(m_k_blks != 0) && (m_blks.size() == m_k_blks)', '(m_blks.size() == m_k_blks)')
B('W01', WBC, '''                for(auto& out : tx.m_uhs_outputs) {
                    m_unspent_ids.erase(out);
                }
''', '')
B('W01', WBC, '''                for(auto& in : tx.m_inputs) {
                    m_spent_ids.erase(in);
                }
''', '''                for(auto& in : tx.m_inputs) {
                    m_spent_ids.erase(in);
                    break;
                }
''')
B('W01', WBC, '''                m_unspent_ids.erase(in);
                m_spent_ids.insert''', '''                m_spent_ids.insert''')
B('W01', WBC, 'm_best_blk_height = std::max(m_best_blk_height, blk_height);', 'm_best_blk_height = blk_height;')
B('W01', WBC, 'm_best_blk_height = std::max(m_best_blk_height, blk_height);', 'm_best_blk_height++;')
B('W01', WBC, '            m_blks.pop();\n', '            if(!old_blk.m_transactions.empty()) { m_blks.pop(); }\n')
B('W01', WBC, '''                m_unspent_ids.insert(
                    {{out, std::make_pair(blk_height, tx.m_id)}});''', '''                m_unspent_ids.insert(
                    {{out, std::make_pair(m_best_blk_height, tx.m_id)}});''')
B('W01', WBC, 'auto res = m_spent_ids.find(uhs_id);', 'auto res = m_unspent_ids.find(uhs_id);\n        if(res == m_unspent_ids.end()) { return std::nullopt; }\n        res = m_spent_ids.find(uhs_id);')
B('W01', WEC, '(m_errs.size() == m_k_errs)', '(m_errs.size() > m_k_errs)')
B('W01', WEC, 'if(it != cache.end() && it->second == old_err) {', 'if(it != cache.end()) {')
B('W01', WEC, '                evict(m_tx_id_errs, old_err->tx_id());\n', '')
B('W01', WEC, '''                                   for(auto& uhs_id : arg.input_uhs_ids()) {
                                       evict(m_uhs_errs, uhs_id);
                                   }
''', '')
B('W01', WEC, 'm_tx_id_errs.insert_or_assign(new_err->tx_id(), new_err);', 'm_tx_id_errs.emplace(new_err->tx_id(), new_err);')
B('W01', WEC, '''                           [&](const tx_error_inputs_spent& arg) {
                               for(const auto& uhs_id : arg.input_uhs_ids()) {
                                   m_uhs_errs.insert_or_assign(uhs_id, new_err);
                               }
                           },
''', '''                           [&](const tx_error_inputs_spent& /* arg */) {
                           },
''')
B('W01', WEC, '                m_errs.pop();\n', '')
B('W01', WEC, 'auto res = m_uhs_errs.find(uhs_id);', 'auto res = m_uhs_errs.find(uhs_id);\n        if(m_errs.size() < m_k_errs) { return std::nullopt; }')
Q('W01', WBC, '''        m_best_blk_height = std::max(m_best_blk_height, blk_height);''', '''        if(blk_height > m_best_blk_height) { m_best_blk_height = blk_height; }''')
Q('W01', WBC, '''                m_unspent_ids.erase(in);
                m_spent_ids.insert(
                    {{in, std::make_pair(blk_height, tx.m_id)}});''', '''                m_spent_ids.emplace(in, std::make_pair(blk_height, tx.m_id));
                if(auto it = m_unspent_ids.find(in); it != m_unspent_ids.end()) { m_unspent_ids.erase(it); }''')
Q('W01', WBC, '''        m_blks.push(std::forward<cbdc::atomizer::block>(blk));

        auto blk_height = m_blks.back().m_height;
        for(auto& tx : m_blks.back().m_transactions) {''', '''        m_blks.push(std::move(blk));

        const auto& added = m_blks.back();
        const auto blk_height = added.m_height;
        for(const auto& tx : added.m_transactions) {''')
Q('W01', WBC, '''        m_blks.push(std::forward<cbdc::atomizer::block>(blk));

        auto blk_height = m_blks.back().m_height;
        for(auto& tx : m_blks.back().m_transactions) {''', '''        auto blk_height = blk.m_height;
        for(auto& tx : blk.m_transactions) {''', (WBC, '''        m_best_blk_height = std::max(m_best_blk_height, blk_height);''', '''        m_best_blk_height = std::max(m_best_blk_height, blk_height);
        m_blks.push(std::move(blk));'''))
Q('W01', WBC, '''        if(res == m_spent_ids.end()) {
            return std::nullopt;
        }
        return res->second;''', '''        return res != m_spent_ids.end() ? std::optional<block_cache_result>(res->second) : std::nullopt;''')
Q('W01', WBC, '''            for(auto& tx : old_blk.m_transactions) {
                for(auto& in : tx.m_inputs) {
                    m_spent_ids.erase(in);
                }
                for(auto& out : tx.m_uhs_outputs) {
                    m_unspent_ids.erase(out);
                }
            }
''', '''            for(auto& tx : old_blk.m_transactions) {
                for(auto& out : tx.m_uhs_outputs) {
                    m_unspent_ids.erase(out);
                }
            }
            for(size_t i = 0; i < old_blk.m_transactions.size(); i++) {
                for(auto& in : old_blk.m_transactions[i].m_inputs) {
                    m_spent_ids.erase(in);
                }
            }
''')
Q('W01', WEC, '''            auto new_err = std::make_shared<tx_error>(std::move(err));
            m_errs.push(new_err);
            m_tx_id_errs.insert_or_assign(new_err->tx_id(), new_err);''', '''            auto new_err = std::make_shared<tx_error>(std::move(err));
            m_tx_id_errs[new_err->tx_id()] = new_err;
            m_errs.push(new_err);''')
Q('W01', WEC, '        for(auto&& err : errs) {', '        for(size_t i = 0; i < errs.size(); i++) {\n auto& err = errs[i];')
Q('W01', WEC, '''                           [](const tx_error_sync& /* unused */) {},
                           [&](const tx_error_inputs_dne& arg) {
                               for(auto& uhs_id : arg.input_uhs_ids()) {
                                   m_uhs_errs.insert_or_assign(uhs_id, new_err);
                               }
                           },
                           [&](const tx_error_inputs_spent& arg) {
                               for(const auto& uhs_id : arg.input_uhs_ids()) {
                                   m_uhs_errs.insert_or_assign(uhs_id, new_err);
                               }
                           },
                           [](const tx_error_stxo_range& /* unused */) {},
                           [](const tx_error_incomplete& /* unused */) {},
''', '''                           [&](const tx_error_inputs_dne& arg) {
                               for(auto& uhs_id : arg.input_uhs_ids()) {
                                   m_uhs_errs[uhs_id] = new_err;
                               }
                           },
                           [&](const tx_error_inputs_spent& arg) {
                               for(const auto& uhs_id : arg.input_uhs_ids()) {
                                   m_uhs_errs[uhs_id] = new_err;
                               }
                           },
                           [](const auto& /* unused */) {},
''')

B('W02', WTT, 'if(err_tx_id == tx_id) {', 'if(err_tx_id != tx_id) {')
B('W02', WTT, '''                    if(auto unspent = m_bc.check_unspent(uhs)) {
                        auto [height, tx_id] = unspent.value();
                        if(err_tx_id == tx_id) {
                            res = true;
                            return;
                        }
                    }
''', '')
B('W02', WTT, '''                              [&](tx_error_inputs_dne&& info) {
                                      check_uhs(err.tx_id(), std::move(info));
                                  },
''', '')
B('W02', WTT, '''                                  [&](tx_error_inputs_dne&& info) {
                                      check_uhs(err.tx_id(), std::move(info));
                                  },
''', '')
B('W02', WTT, '[&](auto&& /* info */) {}}', '[&](auto&& /* info */) { res = m_bc.best_block_height() > 100; }}')
B('W02', WTT, '        errs.erase(\n            std::remove_if(errs.begin(), errs.end(), repeated_tx_filter),\n            errs.end());\n        m_ec', '        auto cp = errs;\n        cp.erase(\n            std::remove_if(cp.begin(), cp.end(), repeated_tx_filter),\n            cp.end());\n        m_ec')
B('W02', WTT, 'status_update_state{search_status::tx_rejected,', 'status_update_state{search_status::invalid_input,')
B('W02', WTT, '                if(s_tx_id == tx_id) {', '                if(s_tx_id == tx_id || height + 1 == best_height) {')
B('W02', WTT, '''status_update_state{search_status::spent,
                                            height,''', '''status_update_state{search_status::spent,
                                            best_height,''')
B('W02', WTT, '''                       || std::holds_alternative<tx_error_stxo_range>(
                           tx_err.value().info()))) {''', '''                       || std::holds_alternative<tx_error_incomplete>(
                           tx_err.value().info()))) {''')
B('W02', WTT, '''                if(us_tx_id == tx_id) {
                    states''', '''                if(us_tx_id == tx_id && !tx_err) {
                    states''')
B('W02', WTT, 'auto tx_err = m_ec.check_tx_id(tx_id);', 'auto tx_err = uhs_ids.empty() ? std::nullopt : m_ec.check_tx_id(uhs_ids[0]);')
B('W02', WTT, 'if(!found_status) {', 'if(states.empty()) {')
B('W02', WCO, 'if(blk.m_height <= m_last_blk_height) {', 'if(blk.m_height < m_last_blk_height) {')
B('W02', WCO, '            m_last_blk_height = (*missed_blk).m_height;\n            m_watchtower.add_block(std::move(*missed_blk));', '            m_last_blk_height = (*missed_blk).m_height;\n            if(!missed_blk->m_transactions.empty()) { m_watchtower.add_block(std::move(*missed_blk)); }')
B('W02', WCO, '''                std::this_thread::sleep_for(archiver_wait_time);
                continue;''', '''                std::this_thread::sleep_for(archiver_wait_time);
                break;''')
B('W02', WCO, 'm_archiver_client.get_block(m_last_blk_height + 1);', 'm_archiver_client.get_block(blk.m_height - 1);')
B('W02', WCO, '    m_last_blk_height = blk.m_height;\n    m_watchtower.add_block(std::move(blk));', '    m_watchtower.add_block(std::move(blk));')
Q('W02', WCO, '''    if(blk.m_height != (m_last_blk_height + 1)) {
        m_logger->warn("Block not contiguous. Last block:", m_last_blk_height);
        while(blk.m_height != (m_last_blk_height + 1)) {''', '''    if(blk.m_height > m_last_blk_height + 1) {
        while(blk.m_height > m_last_blk_height + 1) {''')
Q('W02', WCO, '''            m_last_blk_height = (*missed_blk).m_height;
            m_watchtower.add_block(std::move(*missed_blk));''', '''            m_watchtower.add_block(std::move(missed_blk.value()));
            m_last_blk_height++;''')
Q('W02', WTT, '''                if(tx_err.has_value()
                   && (std::holds_alternative<tx_error_sync>(
                           tx_err.value().info())
                       || std::holds_alternative<tx_error_stxo_range>(
                           tx_err.value().info()))) {
                    internal_err = true;
                }''', '''                if(tx_err.has_value()) {
                    const auto info = tx_err->info();
                    internal_err = std::holds_alternative<tx_error_stxo_range>(info)
                       || std::holds_alternative<tx_error_sync>(info);
                }''')
Q('W02', WTT, '''                if(auto uhs_err = m_ec.check_uhs_id(uhs_id)) {
                    states.emplace_back(
                        status_update_state{search_status::invalid_input,
                                            best_height,
                                            uhs_id});
                } else {
                    states.emplace_back(
                        status_update_state{search_status::tx_rejected,
                                            best_height,
                                            uhs_id});
                }''', '''                const auto st = m_ec.check_uhs_id(uhs_id).has_value() ? search_status::invalid_input : search_status::tx_rejected;
                states.emplace_back(status_update_state{st, best_height, uhs_id});''')
Q('W02', WTT, '''                for(const auto& uhs : info.input_uhs_ids()) {
                    if(auto spent = m_bc.check_spent(uhs)) {
                        auto [height, tx_id] = spent.value();
                        if(err_tx_id == tx_id) {
                            res = true;
                            return;
                        }
                    }
                    if(auto unspent = m_bc.check_unspent(uhs)) {
                        auto [height, tx_id] = unspent.value();
                        if(err_tx_id == tx_id) {
                            res = true;
                            return;
                        }
                    }
                }''', '''                const auto ids = info.input_uhs_ids();
                res = std::any_of(ids.begin(), ids.end(), [&](const auto& uhs) {
                    const auto spent = m_bc.check_spent(uhs);
                    if(spent && spent->second == err_tx_id) { return true; }
                    const auto unspent = m_bc.check_unspent(uhs);
                    return unspent && unspent->second == err_tx_id;
                });''')
Q('W02', WTT, '''        errs.erase(
            std::remove_if(errs.begin(), errs.end(), repeated_tx_filter),
            errs.end());
        m_ec.push_errors(std::move(errs));''', '''        std::vector<tx_error> fresh;
        for(const auto& err : errs) {
            if(!repeated_tx_filter(err)) { fresh.push_back(err); }
        }
        m_ec.push_errors(std::move(fresh));''')
Q('W02', WTT, '''            auto found_status = false;''', '''            bool found_status{};''')
Q('W02', WCO, '''    auto msg = std::visit(res_handler, req.payload());
    return msg;''', '''    return std::visit(res_handler, req.payload());''')
Q('W01', WBC, """                m_unspent_ids.insert(
                    {{out, std::make_pair(blk_height, tx.m_id)}});""", """                m_unspent_ids[out] = {blk_height, tx.m_id};""")

# ---- transactions
VA = 'uhs/transaction/validation.cpp'
TR = 'uhs/transaction/transaction.cpp'
B('T01', VA, 'if(input_total + inp.m_prevout_data.m_value <= input_total) {', 'if(inp.m_prevout_data.m_value == 0) {')
B('T01', VA, 'if(output_total + out.m_value <= output_total) {', 'if(false) {')
B('T01', VA, 'input_total += inp.m_prevout_data.m_value;', 'input_total = inp.m_prevout_data.m_value;')
B('T01', VA, 'uint64_t output_total{0};', 'uint64_t output_total{1};')
B('T01', VA, 'if(input_total != output_total) {', 'if(input_total < output_total) {')
B('T01', VA, 'if(tx.m_inputs.size() != tx.m_witness.size()) {', 'if(tx.m_inputs.size() > tx.m_witness.size()) {')
B('T01', VA, 'inps.insert(inp.m_prevout);', 'if(idx % 2 == 0) {\n                inps.insert(inp.m_prevout);\n            }')
B('T01', VA, 'for(size_t idx = 0; idx < tx.m_inputs.size(); idx++) {\n            const auto& inp = tx.m_inputs[idx];\n            const auto it', 'for(size_t idx = 1; idx < tx.m_inputs.size(); idx++) {\n            const auto& inp = tx.m_inputs[idx];\n            const auto it')
B('T01', VA, 'if(out.m_value < 1) {', 'if(out.m_value < 1 && out.m_witness_program_commitment == hash_t{}) {')
B('T01', VA, '''        for(size_t idx = 0; idx < tx.m_witness.size(); idx++) {
            const auto witness_err''', '''        for(size_t idx = 0; idx + 1 < tx.m_witness.size(); idx++) {
            const auto witness_err''')
B('T01', VA, 'if(wit.size() != p2pk_witness_len) {', 'if(wit.size() < p2pk_witness_len) {')
B('T01', VA, '= hash_data(wit.data(), p2pk_witness_prog_len);', '= hash_data(wit.data(), wit.size());')
B('T01', VA, '= tx.m_inputs[idx].m_prevout_data.m_witness_program_commitment;', '= tx.m_inputs[0].m_prevout_data.m_witness_program_commitment;')
B('T01', VA, '''        const auto witness_commitment_err
            = check_p2pk_witness_commitment(tx, idx);
        if(witness_commitment_err) {
            return witness_commitment_err;
        }
''', '')
B('T01', VA, 'const auto sighash = cbdc::transaction::tx_id(tx);', 'const auto sighash = tx.m_inputs[idx].hash();')
B('T01', VA, '                    &wit[p2pk_witness_prog_len],', '                    &wit[p2pk_witness_prog_len - 1],')
B('T01', VA, 'default:\n                return witness_error_code::unknown_witness_program_type;', 'default:\n                return std::nullopt;')
B('T01', VA, 'return tx_error{output_error{output_err.value(), idx}};', 'return tx_error{output_error{output_err.value(), 0}};')
B('T01', VA, '''                                       &pubkey)
           != 1) {
            return witness_error_code::invalid_signature;''', '''                                       &pubkey)
           < 0) {
            return witness_error_code::invalid_signature;''')
B('T01', VA, 'return tx_error(tx_error_code::no_outputs);', 'return tx_error(tx_error_code::no_inputs);')
B('T01', VA, 'std::byte(witness_program_type::p2pk));', 'std::byte(1));')
B('T01', VA, '''        for(size_t idx = 0; idx < tx.m_inputs.size(); idx++) {
            const auto& inp = tx.m_inputs[idx];
            const auto input_err = check_input_structure(inp);
            if(input_err) {
                auto&& [code, data] = input_err.value();
                return tx_error{input_error{code, data, idx}};
            }
        }
''', '')
Q('T01', VA, 'if(input_total + inp.m_prevout_data.m_value <= input_total) {', 'const auto sum = input_total + inp.m_prevout_data.m_value;\n            if(sum < input_total) {', (VA, 'input_total += inp.m_prevout_data.m_value;', 'input_total = sum;'))
Q('T01', VA, 'if(output_total + out.m_value <= output_total) {', 'if(out.m_value > std::numeric_limits<uint64_t>::max() - output_total) {')
Q('T01', VA, '''            const auto it = inps.find(inp.m_prevout);
            if(it != inps.end()) {
                return''', '''            if(!inps.insert(inp.m_prevout).second) {
                return''', (VA, '            inps.insert(inp.m_prevout);\n', ''))
Q('T01', VA, '        for(size_t idx = 0; idx < tx.m_witness.size(); idx++) {\n            const auto witness_err', '        for(size_t idx = 0; idx < tx.m_inputs.size(); idx++) {\n            const auto witness_err')
Q('T01', VA, '''        for(size_t idx = 0; idx < tx.m_outputs.size(); idx++) {
            const auto& out = tx.m_outputs[idx];
            const auto output_err = check_output_value(out);
            if(output_err) {
                return tx_error{output_error{output_err.value(), idx}};
            }
        }
''', '''        size_t out_idx = 0;
        for(const auto& out : tx.m_outputs) {
            if(const auto output_err = check_output_value(out)) {
                return tx_error{output_error{*output_err, out_idx}};
            }
            out_idx++;
        }
''')
Q('T01', VA, '''        if(witness_program.empty()) {
            return witness_error_code::missing_witness_program_type;
        }
''', '''        if(witness_program.size() == 0) {
            return witness_error_code::missing_witness_program_type;
        }
''')
Q('T01', VA, '''        switch(witness_program_type) {
            case witness_program_type::p2pk:
                return check_p2pk_witness(tx, idx);
            default:
                return witness_error_code::unknown_witness_program_type;
        }''', '''        if(witness_program_type != witness_program_type::p2pk) {
            return witness_error_code::unknown_witness_program_type;
        }
        return check_p2pk_witness(tx, idx);''')
Q('T01', VA, '''        const auto witness_sig_err = check_p2pk_witness_signature(tx, idx);
        if(witness_sig_err) {
            return witness_sig_err;
        }

        return std::nullopt;''', '''        return check_p2pk_witness_signature(tx, idx);''')
Q('T01', VA, '''        const auto sighash = cbdc::transaction::tx_id(tx);

        std::array<unsigned char, sig_len> sig_arr{};
        std::memcpy(sig_arr.data(),
                    &wit[p2pk_witness_prog_len],
                    sizeof(sig_arr));
''', '''        std::array<unsigned char, sig_len> sig_arr{};
        std::memcpy(sig_arr.data(),
                    wit.data() + p2pk_witness_prog_len,
                    sig_arr.size());
        const auto sighash = cbdc::transaction::tx_id(tx);
''')
Q('T01', VA, '''        auto witness_program = to_vector(payee);
        witness_program.insert(witness_program.begin(),
                               std::byte(witness_program_type::p2pk));
''', '''        std::vector<std::byte> witness_program;
        witness_program.push_back(std::byte(witness_program_type::p2pk));
        const auto key = to_vector(payee);
        witness_program.insert(witness_program.end(), key.begin(), key.end());
''')
B('T02', TR, '''        auto out_buf = cbdc::make_buffer(tx.m_outputs);
        sha.Write(out_buf.c_ptr(), out_buf.size());

        hash_t ret;''', '        hash_t ret;')
B('T02', TR, 'sha.Write(index_arr.data(), sizeof(i));', 'sha.Write(index_arr.data(), 4);')
B('T02', TR, 'auto buf = cbdc::make_buffer(*this);', 'auto buf = cbdc::make_buffer(m_prevout);')
B('T02', TR, 'auto buf = cbdc::make_buffer(output);', 'auto buf = cbdc::make_buffer(output.m_value);')
B('T02', TR, 'uhs_id_from_output(m_id, i, tx.m_outputs[i]));', 'uhs_id_from_output(m_id, 0, tx.m_outputs[i]));')
B('T02', TR, '        ctx.m_attestations.clear();\n', '')
B('T02', TR, '        ctx.m_attestations.clear();\n', '        ctx.m_attestations.clear();\n        ctx.m_inputs.clear();\n')
B('T02', TR, 'if(i >= tx.m_outputs.size()) {', 'if(i > tx.m_outputs.size()) {')
B('T02', TR, 'return std::tie(m_tx_id, m_index) < std::tie(rhs.m_tx_id, rhs.m_index);', 'return m_tx_id < rhs.m_tx_id;')
B('T02', TR, 'return m_tx_id == rhs.m_tx_id && m_index == rhs.m_index;', 'return m_tx_id == rhs.m_tx_id;')
B('T02', TR, '            && m_value == rhs.m_value;', '            || m_value == rhs.m_value;')
B('T02', TR, 'ret.m_prevout.m_index = i;', 'ret.m_prevout.m_index = 0;')
B('T02', TR, '        for(const auto& inp : tx.m_inputs) {\n            m_inputs.push_back(inp.hash());\n        }', '        for(const auto& inp : tx.m_inputs) {\n            if(inp.m_prevout_data.m_value > 0) {\n                m_inputs.push_back(inp.hash());\n            }\n        }')
Q('T02', TR, 'return std::tie(m_tx_id, m_index) < std::tie(rhs.m_tx_id, rhs.m_index);', 'if(m_tx_id != rhs.m_tx_id) {\n            return m_tx_id < rhs.m_tx_id;\n        }\n        return m_index < rhs.m_index;')
Q('T02', TR, '''        CSHA256 sha;
        hash_t result;

        sha.Write(buf.c_ptr(), buf.size());
        sha.Finalize(result.data());

        return result;''', '''        return hash_data(static_cast<const std::byte*>(buf.data()), buf.size());''')
Q('T02', TR, '''        sha.Write(inp_buf.c_ptr(), inp_buf.size());

        auto out_buf = cbdc::make_buffer(tx.m_outputs);
        sha.Write(out_buf.c_ptr(), out_buf.size());
''', '''        auto out_buf = cbdc::make_buffer(tx.m_outputs);
        sha.Write(inp_buf.c_ptr(), inp_buf.size()).Write(out_buf.c_ptr(), out_buf.size());
''')
Q('T02', TR, '''        for(uint64_t i = 0; i < tx.m_outputs.size(); i++) {
            m_uhs_outputs.push_back(
                uhs_id_from_output(m_id, i, tx.m_outputs[i]));
        }''', '''        m_uhs_outputs.reserve(tx.m_outputs.size());
        uint64_t idx{0};
        for(const auto& out : tx.m_outputs) {
            m_uhs_outputs.emplace_back(uhs_id_from_output(m_id, idx, out));
            ++idx;
        }''')
Q('T02', TR, '''        auto ctx = *this;
        ctx.m_attestations.clear();
        auto buf = make_buffer(ctx);''', '''        compact_tx ctx;
        ctx.m_id = m_id;
        ctx.m_inputs = m_inputs;
        ctx.m_uhs_outputs = m_uhs_outputs;
        auto buf = make_buffer(ctx);''')
Q('T02', TR, '''        input ret;
        if(i >= tx.m_outputs.size()) {
            return std::nullopt;
        }
        ret.m_prevout_data = tx.m_outputs[i];
        ret.m_prevout.m_index = i;
        ret.m_prevout.m_tx_id = txid;
        return ret;''', '''        if(i >= tx.m_outputs.size()) {
            return std::nullopt;
        }
        input ret;
        ret.m_prevout_data = tx.m_outputs.at(i);
        ret.m_prevout = out_point(txid, i);
        return ret;''')
B('T03', TR, 'auto payload = hash();\n        auto pubkey =', 'auto payload = m_id;\n        auto pubkey =')
B('T03', TR, 'auto payload = hash();\n        secp256k1_xonly_pubkey pubkey{};', 'auto payload = m_id;\n        secp256k1_xonly_pubkey pubkey{};')
B('T03', TR, '''                                       &pubkey)
           != 1) {
            return false;
        }
''', '''                                       &pubkey)
           == 2) {
            return false;
        }
''')
B('T03', VA, 'if(tx.m_attestations.size() < threshold) {', 'if(tx.m_attestations.size() + 1 < threshold) {')
B('T03', VA, 'return std::all_of(tx.m_attestations.begin(),', 'return std::any_of(tx.m_attestations.begin(),')
B('T03', VA, 'return pubkeys.find(att.first) != pubkeys.end()\n                                   && tx.verify(secp_context.get(), att);', 'return tx.verify(secp_context.get(), att);')
B('T03', VA, 'return pubkeys.find(att.first) != pubkeys.end()\n                                   && tx.verify(secp_context.get(), att);', 'return pubkeys.find(att.first) != pubkeys.end();')
B('T03', VA, 'return pubkeys.find(att.first) != pubkeys.end()\n                                   && tx.verify', 'return pubkeys.find(att.first) != pubkeys.end()\n                                   || tx.verify')
B('T03', VA, '&& tx.verify(secp_context.get(), att);', '&& tx.verify(secp_context.get(), *tx.m_attestations.begin());')
Q('T03', VA, '''        return std::all_of(tx.m_attestations.begin(),
                           tx.m_attestations.end(),
                           [&](const auto& att) {
                               return pubkeys.find(att.first) != pubkeys.end()
                                   && tx.verify(secp_context.get(), att);
                           });''', '''        for(const auto& att : tx.m_attestations) {
            if(pubkeys.count(att.first) == 0) {
                return false;
            }
            if(!tx.verify(secp_context.get(), att)) {
                return false;
            }
        }
        return true;''')
Q('T03', TR, '''        if(secp256k1_schnorrsig_verify(ctx,
                                       att.second.data(),
                                       payload.data(),
                                       &pubkey)
           != 1) {
            return false;
        }

        return true;''', '''        return secp256k1_schnorrsig_verify(ctx,
                                       att.second.data(),
                                       payload.data(),
                                       &pubkey)
           == 1;''')
Q('T03', TR, 'return {pubkey, sig};', 'return std::make_pair(pubkey, sig);')

# ---------------------------------------------------------------- D01
DX = 'uhs/twophase/coordinator/distributed_tx.cpp'
B('D01', DX, 'if(m_tx_idxs[i].empty()) {\n                continue;\n            }\n            const auto& shard = m_shards[i];\n            auto f = std::async(std::launch::async,\n                                &locking_shard::interface::lock_outputs',
  'if(m_txs[i].size() < 2) {\n                continue;\n            }\n            const auto& shard = m_shards[i];\n            auto f = std::async(std::launch::async,\n                                &locking_shard::interface::lock_outputs')
B('D01', DX, 'const auto& shard = m_shards[i];\n            auto f = std::async(std::launch::async,\n                                &locking_shard::interface::lock_outputs',
  'const auto& shard = m_shards[0];\n            auto f = std::async(std::launch::async,\n                                &locking_shard::interface::lock_outputs')
B('D01', DX, 'futures.emplace_back(std::move(f), i);', 'futures.emplace_back(std::move(f), futures.size());')
B('D01', DX, 'std::vector<bool>(m_full_txs.size(), true)', 'std::vector<bool>(m_full_txs.size(), false)')
B('D01', DX, 'if(!res) {\n                m_state = dtx_state::failed;\n                return std::nullopt;\n            }\n            if(res->size()', 'if(!res) {\n                continue;\n            }\n            if(res->size()')
B('D01', DX, 'if(!(*res)[i]) {\n                    ret[m_tx_idxs[f.second][i]] = false;', 'if(!(*res)[i]) {\n                    ret[i] = false;')
B('D01', DX, 'if(!(*res)[i]) {\n                    ret[m_tx_idxs[f.second][i]] = false;', 'if(!(*res)[i]) {\n                    ret[m_tx_idxs[f.second][i]] = true;')
B('D01', DX, 'for(size_t i{0}; i < res->size(); i++) {\n                if(!(*res)[i])', 'for(size_t i{1}; i < res->size(); i++) {\n                if(!(*res)[i])')
B('D01', DX, 'if(res->size() != m_tx_idxs[f.second].size())', 'if(res->size() > m_tx_idxs[f.second].size())')
B('D01', DX, 'if(m_prepare_cb) {\n            auto res = m_prepare_cb(m_dtx_id, m_full_txs);\n            if(!res) {', 'if(m_prepare_cb) {\n            auto res = m_prepare_cb(m_dtx_id, m_full_txs);\n            if(!res && m_full_txs.empty()) {')
B('D01', DX, 'auto res = m_commit_cb(m_dtx_id, complete_txs, m_tx_idxs);', 'auto res = m_commit_cb(m_dtx_id, m_complete_txs, m_tx_idxs);')
B('D01', DX, 'shard_complete_txs[j] = complete_txs[m_tx_idxs[i][j]];', 'shard_complete_txs[j] = complete_txs[j];')
B('D01', DX, 'j < shard_complete_txs.size(); j++', 'j + 1 < shard_complete_txs.size(); j++')
B('D01', DX, '&locking_shard::interface::apply_outputs,\n                                shard,\n                                std::move(shard_complete_txs),', '&locking_shard::interface::apply_outputs,\n                                shard,\n                                std::vector<bool>(complete_txs),')
B('D01', DX, '''            auto res = f.get();
            if(!res) {
                m_state = dtx_state::failed;
                return false;
            }
        }
        m_state = dtx_state::discard;''', '''            f.get();
        }
        m_state = dtx_state::discard;''')
B('D01', DX, 'm_state = dtx_state::discard;\n        return true;', 'm_state = dtx_state::done;\n        return true;')
B('D01', DX, 'm_state = dtx_state::commit;\n        return ret;', 'return ret;')
B('D01', DX, 'm_complete_txs = std::move(*res);', 'm_complete_txs = std::vector<bool>(res->size(), true);')
B('D01', DX, 'auto res = commit(m_complete_txs);', 'auto res = commit(std::vector<bool>(m_complete_txs.size(), true));')
B('D01', DX, 'if(m_state == dtx_state::discard) {\n            m_logger', 'if(m_state == dtx_state::discard && !m_full_txs.empty()) {\n            m_logger')
B('D01', DX, 'if(shard->hash_in_shard_range(tx.m_id)) {\n                active = true;\n            } else {', '{')
B('D01', DX, 'for(const auto& out : tx.m_uhs_outputs) {', 'for(const auto& out : tx.m_inputs) {')
B('D01', DX, 'm_tx_idxs[i].emplace_back(m_full_txs.size());', 'm_tx_idxs[i].emplace_back(m_tx_idxs[i].size());')
B('D01', DX, 'return m_full_txs.size() - 1;', 'return m_full_txs.size();')
B('D01', DX, '''        if(m_done_cb) {
            auto res = m_done_cb(m_dtx_id);
            if(!res) {
                m_state = dtx_state::failed;
                return false;
            }
        }
''', '', (DX, '''    auto distributed_tx::discard() -> bool {
''', '''    auto distributed_tx::discard() -> bool {
        if(m_done_cb && !m_done_cb(m_dtx_id)) {
            m_state = dtx_state::failed;
            return false;
        }
'''))
B('D01', DX, '        for(auto& idxs : m_tx_idxs) {\n            idxs.assign({0});\n        }\n', '')
B('D01', DX, '        for(auto& idxs : m_tx_idxs) {\n            idxs.assign({0});\n        }\n', '        m_tx_idxs[0].assign({0});\n')
B('D01', DX, 'm_tx_idxs = tx_idxs;', 'm_tx_idxs.resize(tx_idxs.size());')
B('D01', DX, 'm_state = dtx_state::commit;\n        m_tx_idxs', 'm_state = dtx_state::prepare;\n        m_tx_idxs')
B('D01', DX, 'for(const auto& tx : txs) {\n            add_tx(tx);\n        }', 'for(const auto& tx : txs) {\n            m_full_txs.push_back(tx);\n        }')
B('D01', DX, 'return std::max(m_full_txs.size(), m_complete_txs.size());', 'return m_full_txs.size();')
Q('D01', DX, 'return std::max(m_full_txs.size(), m_complete_txs.size());', 'return m_full_txs.size() > m_complete_txs.size() ? m_full_txs.size() : m_complete_txs.size();')
Q('D01', DX, '''                if(!(*res)[i]) {
                    ret[m_tx_idxs[f.second][i]] = false;
                }''', '''                const auto& idxs = m_tx_idxs[f.second];
                if((*res)[i]) {
                    continue;
                }
                ret[idxs[i]] = false;''')
Q('D01', DX, '''            auto shard_complete_txs = std::vector<bool>(m_tx_idxs[i].size());
            for(size_t j{0}; j < shard_complete_txs.size(); j++) {
                shard_complete_txs[j] = complete_txs[m_tx_idxs[i][j]];
            }''', '''            auto shard_complete_txs = std::vector<bool>();
            shard_complete_txs.reserve(m_tx_idxs[i].size());
            for(auto idx : m_tx_idxs[i]) {
                shard_complete_txs.push_back(complete_txs[idx]);
            }''')
Q('D01', DX, '''            if(m_tx_idxs[i].empty()) {
                continue;
            }
            const auto& shard = m_shards[i];
            auto f = std::async(std::launch::async,
                                &locking_shard::interface::discard_dtx,
                                shard,
                                m_dtx_id);
            futures.emplace_back(std::move(f));''', '''            if(!m_tx_idxs[i].empty()) {
                futures.emplace_back(
                    std::async(std::launch::async,
                               &locking_shard::interface::discard_dtx,
                               m_shards[i],
                               m_dtx_id));
            }''')
Q('D01', DX, 'if(m_commit_cb) {\n            auto res = m_commit_cb(m_dtx_id, complete_txs, m_tx_idxs);\n            if(!res) {\n                m_state = dtx_state::failed;\n                return false;\n            }\n        }', 'if(m_commit_cb && !m_commit_cb(m_dtx_id, complete_txs, m_tx_idxs)) {\n            m_state = dtx_state::failed;\n            return false;\n        }')
Q('D01', DX, '''            bool active{false};
            if(shard->hash_in_shard_range(tx.m_id)) {
                active = true;
            } else {''', '''            bool active = shard->hash_in_shard_range(tx.m_id);
            if(!active) {''')
Q('D01', DX, '''                for(const auto& inp : tx.m_inputs) {
                    if(shard->hash_in_shard_range(inp)) {
                        active = true;
                        break;
                    }
                }
                if(!active) {
                    for(const auto& out : tx.m_uhs_outputs) {
                        if(shard->hash_in_shard_range(out)) {
                            active = true;
                            break;
                        }
                    }
                }''', '''                auto mine = [&](const hash_t& h) {
                    return shard->hash_in_shard_range(h);
                };
                active = std::any_of(tx.m_inputs.begin(),
                                     tx.m_inputs.end(),
                                     mine)
                      || std::any_of(tx.m_uhs_outputs.begin(),
                                     tx.m_uhs_outputs.end(),
                                     mine);''')
Q('D01', DX, '        m_full_txs.emplace_back(tx);\n        return m_full_txs.size() - 1;', '        auto pos = m_full_txs.size();\n        m_full_txs.emplace_back(tx);\n        return pos;')
Q('D01', DX, '''        for(auto& f : futures) {
            auto res = f.get();
            if(!res) {
                m_state = dtx_state::failed;
                return false;
            }
        }
        m_state = dtx_state::discard;
        return true;''', '''        for(size_t i = 0; i < futures.size(); ++i) {
            if(!futures[i].get()) {
                m_state = dtx_state::failed;
                return false;
            }
        }
        m_state = dtx_state::discard;
        return true;''')
Q('D01', DX, '''            m_logger->info("Committing", dtxid_str);
            auto res = commit(m_complete_txs);
            if(!res) {
                return std::nullopt;
            }''', '''            m_logger->info("Committing", dtxid_str);
            if(!commit(m_complete_txs)) {
                return std::nullopt;
            }''')
Q('D01', DX, 'if(m_state == dtx_state::prepare || m_state == dtx_state::start) {', 'auto fresh = m_state == dtx_state::prepare\n                  || m_state == dtx_state::start;\n        if(fresh) {')

# ---------------------------------------------------------------- C01, C02
CS = 'uhs/twophase/coordinator/state_machine.cpp'
CC = 'uhs/twophase/coordinator/controller.cpp'
B('C01', CS, '''        deser >> comm;
        switch''', '''        auto raw = nuraft::buffer::copy(data);
        deser >> comm;
        switch''', (CS, '''                    comm.m_dtx_id.value(),
                    nuraft::buffer::copy(data));''', '''                    comm.m_dtx_id.value(),
                    raw);'''))
B('C01', CS, '''                auto res = m_state.m_prepare_txs.erase(comm.m_dtx_id.value());
                if(res == 0U) {''', '''                auto res = m_state.m_prepare_txs.erase(comm.m_dtx_id.value());
                if(res == 0U && m_state.m_commit_txs.empty()) {''')
B('C01', CS, 'm_state.m_commit_txs.emplace(comm.m_dtx_id.value(),', 'm_state.m_prepare_txs.emplace(comm.m_dtx_id.value(),')
B('C01', CS, 'm_state.m_discard_txs.emplace(comm.m_dtx_id.value());', '')
B('C01', CS, '''                auto res = m_state.m_discard_txs.erase(comm.m_dtx_id.value());
                if(res == 0U) {''', '''                auto res = m_state.m_discard_txs.count(comm.m_dtx_id.value());
                if(res == 0U) {''')
B('C01', CS, '''                if(!res.second) {''', '''                if(!res.second && m_state.m_discard_txs.empty()) {''')
B('C01', CS, '''        m_last_committed_idx = log_idx;
        auto comm''', '''        m_last_committed_idx++;
        auto comm''')
B('C01', CC, 'sm_command{{state_machine::command::discard, dtx_id}};', 'sm_command{{state_machine::command::done, dtx_id}};')
B('C01', CC, 'std::make_pair(complete_txs, tx_idxs)}', 'std::make_pair(std::vector<bool>(complete_txs.size(), true), tx_idxs)}')
B('C01', CC, '''        auto comm = sm_command{{state_machine::command::done, dtx_id}};
        return replicate_sm_command(comm).has_value();''', '''        auto comm = sm_command{{state_machine::command::done, dtx_id}};
        replicate_sm_command(comm);
        return true;''')
B('C01', CC, 'if(s != distributed_tx::dtx_state::commit) {', 'if(s == distributed_tx::dtx_state::start) {')
B('C01', CC, 'if(s != distributed_tx::dtx_state::prepare) {', 'if(s != distributed_tx::dtx_state::commit) {')
B('C01', CC, 'return discard_cb(std::forward<decltype(dtx_id)>(dtx_id));', 'return done_cb(std::forward<decltype(dtx_id)>(dtx_id));')
B('C01', CC, 'coord->recover_commit(com.second.first, com.second.second);', 'coord->recover_discard();')
B('C01', CC, '''            coord->recover_discard();
            coordinators.emplace_back(std::move(coord));''', '''            coord->recover_discard();
            if(coordinators.empty()) {
                coordinators.emplace_back(std::move(coord));
            }''')
B('C01', CC, 'coord = std::make_shared<distributed_tx>(com.first,', 'coord = std::make_shared<distributed_tx>(m_rnd.random_hash(),')
B('C01', CC, '            batch_set_cbs(*coord);\n            auto dtx_id_str', '            auto dtx_id_str')
B('C01', CC, '''        // Make sure we recovered fully before returning
        join_execs();
''', '')
B('C01', CC, 'success = false;', '')
B('C01', CC, '''        join_execs();

        return success;''', '''        join_execs();

        return true;''')
B('C01', CC, '''                auto exec_res = c->execute();
                if(!exec_res) {''', '''                auto exec_res = c->execute();
                if(!exec_res && s.empty()) {''')
B('C01', CC, '''                    success = false;
                } else {
                    m_logger->info("Recovered dtx", s);
                }
                // Mark the thread we were using as done so it can be re-used
                {
                    std::shared_lock<std::shared_mutex> l(m_exec_mut);
                    m_exec_threads[thread_idx].second = false;
                }''', '''                    success = false;
                    return;
                } else {
                    m_logger->info("Recovered dtx", s);
                }
                // Mark the thread we were using as done so it can be re-used
                {
                    std::shared_lock<std::shared_mutex> l(m_exec_mut);
                    m_exec_threads[thread_idx].second = false;
                }''')
Q('C01', CS, '''                auto res = m_state.m_prepare_txs.emplace(
                    comm.m_dtx_id.value(),
                    nuraft::buffer::copy(data));
                if(!res.second) {''', '''                const auto& id = comm.m_dtx_id.value();
                auto [it, added] = m_state.m_prepare_txs.emplace(
                    id,
                    nuraft::buffer::copy(data));
                (void)it;
                if(!added) {''')
Q('C01', CS, '''                auto res = m_state.m_commit_txs.erase(comm.m_dtx_id.value());
                if(res == 0U) {''', '''                if(m_state.m_commit_txs.erase(comm.m_dtx_id.value()) != 1) {''')
Q('C01', CC, '''        auto comm = sm_command{{state_machine::command::done, dtx_id}};
        return replicate_sm_command(comm).has_value();''', '''        auto comm = sm_command{{state_machine::command::done, dtx_id}};
        auto res = replicate_sm_command(comm);
        if(!res) {
            return false;
        }
        return true;''')
Q('C01', CC, '''                if(!exec_res) {
                    m_logger->error("Failed to recover dtx", s);
                    // We probably stopped being the leader so set the success
                    // flag
                    success = false;
                } else {
                    m_logger->info("Recovered dtx", s);
                }''', '''                if(exec_res.has_value()) {
                    m_logger->info("Recovered dtx", s);
                } else {
                    success = false;
                    m_logger->error("Failed to recover dtx", s);
                }''')
Q('C01', CC, '''            auto coord = std::shared_ptr<distributed_tx>();
            {
                std::shared_lock<std::shared_mutex> l(m_shards_mut);
                coord = std::make_shared<distributed_tx>(dis,
                                                         m_shards,
                                                         m_logger);
            }
            // Tell the coordinator this dtx is in the discard phase
            coord->recover_discard();
            coordinators.emplace_back(std::move(coord));''', '''            std::shared_lock<std::shared_mutex> l(m_shards_mut);
            auto coord = std::make_shared<distributed_tx>(dis,
                                                          m_shards,
                                                          m_logger);
            coord->recover_discard();
            coordinators.push_back(coord);''')

B('C02', CC, '''        if(!m_raft_serv->is_leader()) {
            return false;
        }

        if(!trans''', '''        if(!trans''')
B('C02', CC, 'm_opts.m_attestation_threshold)) {\n            m_logger->warn("Received', 'm_opts.m_attestation_threshold)\n           && tx.m_attestations.empty()) {\n            m_logger->warn("Received')
B('C02', CC, 'return m_current_txs->size() < m_batch_size || !m_running;', 'return m_current_txs->size() <= m_batch_size || !m_running;')
B('C02', CC, 'return m_current_txs->size() < m_batch_size || !m_running;', 'return m_current_txs->size() < m_batch_size;')
B('C02', CC, '''            if(!m_running) {
                return false;
            }
''', '')
B('C02', CC, '''            if(m_current_txs->find(tx.m_id) != m_current_txs->end()) {
                return false;
            }
''', '')
B('C02', CC, '''        if(added) {
            // If''', '''        if(!added) {
            // If''')
B('C02', CC, 'std::make_pair(std::move(result_callback), idx));', 'std::make_pair(std::move(result_callback), m_current_txs->size()));')
B('C02', CC, 'return !m_current_txs->empty() || !m_running;', 'return !m_current_txs->empty();')
B('C02', CC, 'return !m_current_txs->empty() || !m_running;', 'return m_current_txs->size() > 1 || !m_running;')
B('C02', CC, '''                batch = std::move(m_current_batch);
                txs = std::move(m_current_txs);
                m_current_batch = std::move(new_batch);
                batch_set_cbs(*m_current_batch);
                m_current_txs = std::make_shared<
                    decltype(m_current_txs)::element_type>();
            }''', '''                batch = std::move(m_current_batch);
                m_current_batch = std::move(new_batch);
                batch_set_cbs(*m_current_batch);
            }
            {
                std::lock_guard<std::mutex> l(m_batch_mut);
                txs = std::move(m_current_txs);
                m_current_txs = std::make_shared<
                    decltype(m_current_txs)::element_type>();
            }''')
B('C02', CC, '                batch_set_cbs(*m_current_batch);\n', '')
B('C02', CC, '''            // Notify the handler thread it can re-start adding transactions to
            // the current batch
            m_batch_cv.notify_one();
''', '')
B('C02', CC, 'if(res.has_value()) {\n                        tx_res = static_cast<bool>((*res)[batch_idx]);\n                    }', 'tx_res = res.has_value() && static_cast<bool>((*res)[batch_idx]);')
B('C02', CC, 'for(const auto& [tx_id, metadata] : *t) {\n                    const auto& [cb_func, batch_idx] = metadata;', 'size_t pos{0};\n                for(const auto& [tx_id, metadata] : *t) {\n                    const auto& cb_func = metadata.first;\n                    const auto batch_idx = pos++;')
B('C02', CC, '''                if(!res) {
                    // We probably stopped being the leader and we don't know
''', '''                if(!res) {
                    return;
                    // We probably stopped being the leader and we don't know
''')
B('C02', CC, 'if(thr.first && thr.first->joinable()) {\n                            thr.first->join();\n                        }', '')
B('C02', CC, 'if(!thr.second) {\n                        // Make', 'if(!thr.second || m_exec_threads.size() == 1) {\n                        // Make')
B('C02', CC, 'thr.second = true;', '')
B('C02', CC, 'std::make_shared<std::thread>(std::move(f), i);', 'std::make_shared<std::thread>(std::move(f), 0);')
B('C02', CC, '''        {
            std::lock_guard<std::mutex> l(m_batch_mut);
            m_running = false;
        }
        // Both''', '''        m_running = false;
        // Both''')
B('C02', CC, 'm_batch_cv.notify_all();', 'm_batch_cv.notify_one();')
B('C02', CC, '''        m_batch_cv.notify_all();
        m_rpc_server.reset();
''', '''        m_rpc_server.reset();
        m_batch_cv.notify_all();
''')
B('C02', CC, '''            for(auto& s : m_shards) {
                s->stop();
            }
''', '')
B('C02', CC, '''        // Join any existing dtxs still executing
        join_execs();
''', '')
B('C02', CC, 'while(true) {\n            bool stopping', 'while(!m_quit) {\n            bool stopping')
B('C02', CC, '''                stop();
                m_logger->warn("Starting coordinator");''', '''                m_logger->warn("Starting coordinator");''')
B('C02', CC, '''                    m_start_flag = false;
                    m_stop_flag = false;
                }
            }

            if(stopping)''', '''                    m_start_flag = false;
                }
            }

            if(stopping)''')
B('C02', CC, '''            {
                std::unique_lock<std::mutex> l(m_start_mut);
                m_start_flag = true;
                m_stop_flag = false;
            }''', '''            {
                std::unique_lock<std::mutex> l(m_start_mut);
                m_start_flag = true;
            }''')
B('C02', CC, '''                m_start_flag = false;
                m_stop_flag = true;
            }
            m_start_cv.notify_one();''', '''                m_start_flag = false;
                m_stop_flag = true;
            }''')
B('C02', CC, 'return m_start_flag || m_quit || m_stop_flag;', 'return m_start_flag || m_stop_flag;')
B('C02', CC, '} while(!recovered && m_raft_serv->is_leader());', '} while(false);')
B('C02', CC, '''        if(!m_raft_serv->is_leader()) {
            return;
        }

        // Create''', '''        // Create''')
B('C02', CC, '        batch_set_cbs(*batch);\n', '')
B('C02', CC, 'm_shard_ranges[i],', 'm_shard_ranges[0],')
B('C02', CC, '''            {
                std::unique_lock<std::shared_mutex> l(m_shards_mut);
                m_shards.emplace_back(std::move(s));
            }''', '''            m_shards.emplace_back(std::move(s));''')
Q('C02', CC, '''            if(m_current_txs->find(tx.m_id) != m_current_txs->end()) {
                return false;
            }
''', '''            if(m_current_txs->count(tx.m_id) > 0) {
                return false;
            }
''')
Q('C02', CC, '''        auto added = [&]() {''', '''        const auto added = [this, &tx, &result_callback]() -> bool {''')
Q('C02', CC, '''                    auto tx_res = std::optional<bool>();
                    if(res.has_value()) {
                        tx_res = static_cast<bool>((*res)[batch_idx]);
                    }
                    cb_func(tx_res);''', '''                    if(!res) {
                        cb_func(std::nullopt);
                        continue;
                    }
                    bool ok = (*res)[batch_idx];
                    cb_func(ok);''')
Q('C02', CC, '''                m_current_batch = std::move(new_batch);
                batch_set_cbs(*m_current_batch);
''', '''                batch_set_cbs(*new_batch);
                m_current_batch = std::move(new_batch);
''')
Q('C02', CC, '''            std::unique_lock<std::mutex> l(m_batch_mut);
            m_batch_cv.wait(l, [&]() {
                return m_current_txs->size() < m_batch_size || !m_running;
            });
            if(!m_running) {''', '''            std::unique_lock<std::mutex> l(m_batch_mut);
            m_batch_cv.wait(l, [&]() {
                if(!m_running) {
                    return true;
                }
                return m_batch_size > m_current_txs->size();
            });
            if(!m_running) {''')
Q('C02', CC, '''                if(m_quit) {
                    quitting = true;
                    stopping = true;
                } else {''', '''                quitting = m_quit;
                if(quitting) {
                    stopping = true;
                } else {''')
Q('C02', CC, '''        bool recovered{false};
        do {
            auto res = recovery_func();
            if(!res) {
                m_logger->error("Failed to recover, likely stopped "
                                "being leader");
                continue;
            }
            recovered = true;
        } while(!recovered && m_raft_serv->is_leader());''', '''        while(!recovery_func()) {
            m_logger->error("Failed to recover, likely stopped "
                            "being leader");
            if(!m_raft_serv->is_leader()) {
                break;
            }
        }''')
Q('C02', CC, '''                m_logger->warn("Stopping coordinator");
                stop();
                m_logger->warn("Stopped coordinator");
                if(quitting) {
                    m_logger->warn("Quitting");
                    break;
                }''', '''                m_logger->warn("Stopping coordinator");
                stop();
                if(quitting) {
                    return;
                }''')

SHC = 'uhs/atomizer/shard/shard.cpp'
SHK = 'uhs/atomizer/shard/controller.cpp'
B('A04', SHC, 'if(blk.m_height != m_best_block_height + 1) {', 'if(blk.m_height <= m_best_block_height) {')
B('A04', SHC, 'if(blk.m_height != m_best_block_height + 1) {', 'if(blk.m_height < m_best_block_height + 1 || blk.m_height > m_best_block_height + 2) {')
B('A04', SHC, 'if(is_output_on_shard(out)) {', 'if(is_output_on_shard(tx.m_id)) {')
B('A04', SHC, '                if(is_output_on_shard(inp)) {\n                    std', '                {\n                    std')
B('A04', SHC, 'batch.Delete(OutPointKey);', 'm_db->Delete(m_write_options, OutPointKey);')
B('A04', SHC, 'batch.Delete(OutPointKey);', 'batch.Put(OutPointKey, leveldb::Slice());')
B('A04', SHC, 'std::memcpy(inp_arr.data(), inp.data(), inp.size());\n                    leveldb', 'std::memcpy(inp_arr.data(), tx.m_id.data(), inp.size());\n                    leveldb')
B('A04', SHC, 'leveldb::Slice OutPointKey(out_arr.data(), out.size());', 'leveldb::Slice OutPointKey(out_arr.data(), out.size() - 1);')
B('A04', SHC, 'batch.Put(m_best_block_height_key, newBestBlockHeight);', '')
B('A04', SHC, 'std::memcpy(height_arr.data(), &new_height, sizeof(new_height));', 'std::memcpy(height_arr.data(), &m_best_block_height, sizeof(new_height));')
B('A04', SHC, '''        if(!res.ok()) {
            return false;
        }
        this->m_best_block_height = new_height;''', '''        this->m_best_block_height = new_height;''')
B('A04', SHC, '''        this->m_best_block_height = new_height;

        update_snapshot();''', '''        this->m_best_block_height = new_height;''')
B('A04', SHC, '''        // Commit the changes atomically
''', '''        this->m_best_block_height = new_height;
        update_snapshot();
''')
B('A04', SHC, '''            snp_height = m_snp_height;
            snp = m_snp;
        }''', '''            snp = m_snp;
        }
        {
            std::shared_lock<std::shared_mutex> l(m_snp_mut);
            snp_height = m_snp_height;
        }''')
B('A04', SHC, 'snp_height = m_snp_height;', 'snp_height = m_best_block_height;')
B('A04', SHC, '        if(snp_height == 0) {', '        if(snp_height == 0 && tx.m_inputs.empty()) {')
B('A04', SHC, 'read_options.snapshot = snp.get();', '')
B('A04', SHC, 'read_options.snapshot = snp.get();', 'read_options.snapshot = m_snp.get();')
B('A04', SHC, '            if(!is_output_on_shard(inp)) {\n                continue;\n            }', '')
B('A04', SHC, 'attestations.insert(i);', 'attestations.insert(attestations.size());')
B('A04', SHC, '''            } else if(!res.ok()) {
                // The input could not be looked up
                return cbdc::watchtower::tx_error{
                    tx.m_id,
                    cbdc::watchtower::tx_error_sync{}};
            } else {''', '''            } else {''')
B('A04', SHC, '            if(res.IsNotFound()) {\n                dne', '            if(!res.ok()) {\n                dne')
B('A04', SHC, 'if(!dne_inputs.empty()) {', 'if(dne_inputs.size() > 1) {')
B('A04', SHC, 'cbdc::watchtower::tx_error_inputs_dne{dne_inputs}};', 'cbdc::watchtower::tx_error_inputs_dne{tx.m_inputs}};')
B('A04', SHC, 'msg.m_block_height = snp_height;', 'msg.m_block_height = best_block_height();')
B('A04', SHC, 'std::unique_lock<std::shared_mutex> l(m_snp_mut);\n        m_snp_height = m_best_block_height;', 'm_snp_height = m_best_block_height;\n        std::unique_lock<std::shared_mutex> l(m_snp_mut);')
B('A04', SHC, 'std::unique_lock<std::shared_mutex> l(m_snp_mut);', 'std::shared_lock<std::shared_mutex> l(m_snp_mut);')
B('A04', SHC, '''            this->m_best_block_height = 0;
''', '''            this->m_best_block_height = 1;
''')
B('A04', SHC, '''        update_snapshot();

        return std::nullopt;''', '''        return std::nullopt;''')
B('A04', SHC, '''        } else if(!bestBlockRes.ok()) {
            return bestBlockRes.ToString();
        } else {''', '''        } else {''')
B('A04', SHK, '''            if(blk.m_height <= m_shard.best_block_height()) {
                break;
            }
''', '''            break;
''')
B('A04', SHK, 'for(uint64_t i = m_shard.best_block_height() + 1; i < blk.m_height;', 'for(uint64_t i = m_shard.best_block_height() + 2; i < blk.m_height;')
B('A04', SHK, 'for(uint64_t i = m_shard.best_block_height() + 1; i < blk.m_height;', 'for(uint64_t i = m_shard.best_block_height() + 1; i < blk.m_height - 1;')
B('A04', SHK, '                    i--;\n', '')
B('A04', SHK, 'm_shard.digest_block(past_blk.value());', '')
B('A04', SHK, 'while(!m_shard.digest_block(blk)) {', 'for(int tries = 0; tries < 2 && !m_shard.digest_block(blk); tries++) {')
B('A04', SHK, '''            if(!transaction::validation::check_attestations(
                   tx,
                   m_opts.m_sentinel_public_keys,
                   m_opts.m_attestation_threshold)) {
                m_logger->warn("Received invalid compact transaction",
                               to_string(tx.m_id));
                continue;
            }
''', '')
B('A04', SHK, 'm_opts.m_attestation_threshold)) {', '1)) {')
B('A04', SHK, '                    m_watchtower_network.broadcast(buf);', '')
B('A04', SHK, 'while(m_request_queue.pop(pkt)) {', 'while(m_request_queue.pop(pkt) && m_shard.best_block_height() > 0) {')
B('A04', SHK, '''                            *err_msg);
            return false;''', '''                            *err_msg);''')
Q('A04', SHC, '''                    std::array<char, sizeof(out)> out_arr{};
                    std::memcpy(out_arr.data(), out.data(), out.size());
                    leveldb::Slice OutPointKey(out_arr.data(), out.size());
                    batch.Put(OutPointKey, leveldb::Slice());''', '''                    batch.Put(leveldb::Slice(reinterpret_cast<const char*>(out.data()), out.size()), leveldb::Slice());''')
Q('A04', SHC, '        // Iterate over all confirmed transactions\n        for(const auto& tx : blk.m_transactions) {', '        for(size_t k = 0; k < blk.m_transactions.size(); k++) {\n            const auto& tx = blk.m_transactions[k];')
Q('A04', SHC, '''            // Delete spent inputs
            for(''', '''        }
        for(const auto& tx : blk.m_transactions) {
            for(''')
Q('A04', SHC, '''        if(blk.m_height != m_best_block_height + 1) {
            return false;
        }
''', '''        const auto expected = m_best_block_height + 1;
        const bool fits = blk.m_height == expected;
        if(!fits) {
            return false;
        }
''')
Q('A04', SHC, 'const uint64_t new_height = m_best_block_height + 1;', 'const uint64_t new_height = blk.m_height;')
Q('A04', SHC, '''        for(uint64_t i = 0; i < tx.m_inputs.size(); i++) {
            const auto& inp = tx.m_inputs[i];
            // Only check for inputs/outputs relevant to this shard
            if(!is_output_on_shard(inp)) {
                continue;
            }
''', '''        uint64_t i = 0;
        for(auto it = tx.m_inputs.begin(); it != tx.m_inputs.end(); it++, i++) {
            const auto& inp = *it;
            const auto mine = is_output_on_shard(inp);
            if(!mine) {
                continue;
            }
''')
Q('A04', SHC, '''            if(res.IsNotFound()) {
                dne_inputs.push_back(inp);
            } else if(!res.ok()) {
                // The input could not be looked up
                return cbdc::watchtower::tx_error{
                    tx.m_id,
                    cbdc::watchtower::tx_error_sync{}};
            } else {
                attestations.insert(i);
            }''', '''            if(res.ok()) {
                attestations.emplace(i);
                continue;
            }
            if(!res.IsNotFound()) {
                return cbdc::watchtower::tx_error{
                    tx.m_id,
                    cbdc::watchtower::tx_error_sync{}};
            }
            dne_inputs.emplace_back(inp);''')
Q('A04', SHC, '''        atomizer::tx_notify_request msg;
        msg.m_attestations = std::move(attestations);
        msg.m_tx = std::move(tx);
        msg.m_block_height = snp_height;

        return msg;''', '''        return atomizer::tx_notify_request{std::move(tx), std::move(attestations), snp_height};''')
Q('A04', SHC, '''        std::unique_lock<std::shared_mutex> l(m_snp_mut);
        m_snp_height = m_best_block_height;
        m_snp = std::shared_ptr<const leveldb::Snapshot>(
            m_db->GetSnapshot(),
            [&](const leveldb::Snapshot* p) {
                m_db->ReleaseSnapshot(p);
            });''', '''        auto snp = std::shared_ptr<const leveldb::Snapshot>(
            m_db->GetSnapshot(),
            [&](const leveldb::Snapshot* p) {
                m_db->ReleaseSnapshot(p);
            });
        std::lock_guard<std::shared_mutex> l(m_snp_mut);
        m_snp = std::move(snp);
        m_snp_height = m_best_block_height;''')
Q('A04', SHK, '''                if(past_blk) {
                    m_shard.digest_block(past_blk.value());
                } else {
                    m_logger->info("Waiting for archiver sync");
                    const auto wait_time = std::chrono::milliseconds(10);
                    std::this_thread::sleep_for(wait_time);
                    i--;
                    continue;
                }''', '''                if(!past_blk.has_value()) {
                    std::this_thread::sleep_for(std::chrono::milliseconds(10));
                    --i;
                    continue;
                }
                m_shard.digest_block(*past_blk);''')
Q('A04', SHK, '''            for(uint64_t i = m_shard.best_block_height() + 1; i < blk.m_height;
                i++) {''', '''            const auto first = m_shard.best_block_height() + 1;
            for(uint64_t i = first; i < blk.m_height;
                i++) {''')
Q('A04', SHK, '''        while(!m_shard.digest_block(blk)) {''', '''        for(;;) {
            if(m_shard.digest_block(blk)) {
                break;
            }''')
Q('A04', SHK, '''                    auto data = std::vector<cbdc::watchtower::tx_error>{err};
                    auto buf = make_shared_buffer(data);
                    m_watchtower_network.broadcast(buf);''', '''                    auto data = std::vector<cbdc::watchtower::tx_error>();
                    data.push_back(err);
                    m_watchtower_network.broadcast(make_shared_buffer(data));''')
Q('A04', SHK, '''        while(m_request_queue.pop(pkt)) {''', '''        for(;;) {
            if(!m_request_queue.pop(pkt)) { break; }''')
ARK = 'uhs/atomizer/archiver/controller.cpp'
B('A03', ARK, 'sync = do_sync;', 'sync = !do_sync;')
B('A03', ARK, 'controller::m_write_options{true};', 'controller::m_write_options{false};')
B('A03', ARK, 'if(blk.m_height <= m_best_height) {', 'if(blk.m_height < m_best_height) {')
B('A03', ARK, 'if(blk.m_height != m_best_height + 1) {', 'if(blk.m_height > m_best_height + 2) {')
B('A03', ARK, 'auto it = m_deferred.find(blk.m_height - 1);', 'auto it = m_deferred.find(blk.m_height);')
B('A03', ARK, 'request_block(blk.m_height - 1);', 'request_block(m_best_height);')
B('A03', ARK, 'm_deferred.emplace(blk.m_height, blk);', 'm_deferred.emplace(blk.m_height - 1, blk);')
B('A03', ARK, 'm_deferred.emplace(blk.m_height, blk);', 'if(it == m_deferred.end()) { m_deferred.emplace(blk.m_height, blk); }')
B('A03', ARK, 'batch.Put(m_bestblock_key, height_str);', '')
B('A03', ARK, 'batch.Put(m_bestblock_key, height_str);', 'batch.Put(m_bestblock_key, std::to_string(m_best_height));')
B('A03', ARK, 'batch.Put(m_bestblock_key, height_str);\n', 'm_db->Put(m_write_options, m_bestblock_key, height_str);\n')
B('A03', ARK, 'blk_slice(blk_bytes.c_str(), blk_bytes.size());', 'blk_slice(blk_bytes.c_str(), blk_bytes.size() - 1);')
B('A03', ARK, 'auto blk_bytes = make_buffer(blk);', 'auto blk_bytes = make_buffer(blk.m_height);')
B('A03', ARK, '''            if(!res.ok()) {
                m_logger->fatal("Failed to store block",''', '''            if(!res.ok()) {
                m_logger->error("Failed to store block",''')
B('A03', ARK, 'request_prune(m_best_height);', 'request_prune(m_best_height + 1);')
B('A03', ARK, '''            const auto res = m_db->Write(m_write_options, &batch);''', '''            request_prune(blk.m_height);
            const auto res = m_db->Write(m_write_options, &batch);''')
B('A03', ARK, 'auto it = m_deferred.find(blk.m_height + 1);', 'auto it = m_deferred.find(blk.m_height + 2);')
B('A03', ARK, 'm_deferred.erase(blk.m_height);', 'm_deferred.clear();')
B('A03', ARK, 'm_deferred.erase(blk.m_height);', '')
B('A03', ARK, '''        if(digest_next) {''', '''        if(digest_next && m_deferred.empty()) {''')
B('A03', ARK, 'bestblock_val = std::to_string(0);', 'bestblock_val = std::to_string(1);')
B('A03', ARK, '''            if(!wr_res.ok()) {
                return false;
            }''', '')
B('A03', ARK, 'if(m_best_height == 0) {', 'if(m_best_height < 2) {')
B('A03', ARK, 'std::string height_str = std::to_string(height);', 'std::string height_str = std::to_string(height > m_best_height ? m_best_height : height);')
B('A03', ARK, 'buf.append(blk_str.data(), blk_str.size());', 'buf.append(blk_str.data(), expected_entry_sz);')
B('A03', ARK, '        if(!s.ok()) {\n            m_logger->warn("block"', '        if(s.IsCorruption()) {\n            m_logger->warn("block"')
B('A03', ARK, 'auto blk = get_block(req.value());', 'auto blk = get_block(req.value() + 1);')
B('A03', ARK, '(m_max_samples != 0) && (m_samples >= m_max_samples)', 'm_samples >= m_max_samples')
B('A03', ARK, '        digest_block(blk.value());\n        return', '        if(m_running) { digest_block(blk.value()); }\n        return')
B('A03', ARK, '''        if(!init_best_block()) {
            return false;
        }''', 'init_best_block();')
B('A03', ARK, '''        if(!init_best_block()) {
            return false;
        }
''', '', (ARK, '''        if(!init_atomizer_connection()) {
            return false;
        }
''', '''        if(!init_atomizer_connection()) {
            return false;
        }
        if(!init_best_block()) {
            return false;
        }
'''))
B('A03', 'uhs/atomizer/archiver/client.cpp', 'if(!m_sock.send(height)) {', 'if(!m_sock.send(height + 1)) {')
B('A03', 'uhs/atomizer/archiver/client.cpp', '''            m_logger->error("Error requesting block from archiver.");
            return std::nullopt;''', '''            m_logger->error("Error requesting block from archiver.");''')
Q('A03', ARK, '''            if(blk.m_height <= m_best_height) {''', '''            const auto dup = !(m_best_height < blk.m_height);
            if(dup) {''')
Q('A03', ARK, '''                auto it = m_deferred.find(blk.m_height - 1);
                if(it == m_deferred.end()) {''', '''                const auto prev = blk.m_height - 1;
                if(m_deferred.count(prev) == 0) {''')
Q('A03', ARK, '''            if(it != m_deferred.end()) {
                next_blk = it->second;
                digest_next = true;
            }

            m_deferred.erase(blk.m_height);''', '''            m_deferred.erase(blk.m_height);
            if(it != m_deferred.end()) {
                next_blk = it->second;
                digest_next = true;
            }
''')
Q('A03', ARK, 'm_best_height++;', 'm_best_height = blk.m_height;')
Q('A03', ARK, 'request_prune(m_best_height);', 'request_prune(blk.m_height);')
Q('A03', ARK, '''        if(digest_next) {
            // TODO''', '''        if(!digest_next) {
            return;
        }
        {
            // TODO''')
Q('A03', ARK, '''        if(!s.ok()) {
            m_logger->warn("block", height, "not found");
            m_logger->trace("end", __func__);

            return std::nullopt;
        }
''', '''        const bool found = s.ok();
        if(!found) {
            return std::nullopt;
        }
''')
Q('A03', ARK, '''        auto blk = get_block(req.value());
        return cbdc::make_buffer(blk);''', '''        return cbdc::make_buffer(get_block(*req));''')
Q('A03', ARK, 'leveldb::Slice blk_slice(blk_bytes.c_str(), blk_bytes.size());', 'leveldb::Slice blk_slice(reinterpret_cast<const char*>(blk_bytes.data()), blk_bytes.size());')

S2 = 'uhs/twophase/sentinel_2pc/controller.cpp'
S1 = 'uhs/atomizer/sentinel/controller.cpp'
B('T04', S2, '''                validation_err});
            return true;''', '''                validation_err});''')
B('T04', S2, 'if(m_opts.m_attestation_threshold > 0) {\n            auto', 'if(m_opts.m_attestation_threshold > 1) {\n            auto')
B('T04', S2, 'gather_attestations(tx, std::move(result_callback), compact_tx, {});', 'send_compact_tx(compact_tx, std::move(result_callback));')
B('T04', S2, '            if(!res.value()) {\n                resp', '            if(res.value()) {\n                resp')
B('T04', S2, '            res_cb(std::nullopt);', '')
B('T04', S2, '''            result_callback(std::nullopt);
            return true;
        }
        auto compact_tx''', '''        }
        auto compact_tx''')
B('T04', S2, '''            result_callback(std::nullopt);
            return;
        }
        ctx.m_att''', '''            result_callback(std::nullopt);
        }
        ctx.m_att''')
B('T04', S2, '''        ctx.m_attestations.insert(std::move(v_res.value()));
''', '')
B('T04', S2, 'ctx.m_attestations.size() < m_opts', 'ctx.m_attestations.size() + 1 < m_opts')
B('T04', S2, 'requested.find(sentinel_id) != requested.end()', 'requested.size() > m_sentinel_clients.size()')
B('T04', S2, '                            r.insert(sentinel_id);\n', '')
B('T04', S2, 'auto r = requested;', 'auto r = std::unordered_set<size_t>();')
B('T04', S2, '''            return;
        }

        m_logger->debug("Accepted"''', '''        }

        m_logger->debug("Accepted"''')
B('T04', S2, '''                success
                    = m_sentinel_clients''', '''                success = true;
                m_sentinel_clients''')
B('T04', S2, 'while(!m_coordinator_client.execute_transaction(ctx, cb)) {', 'if(!m_coordinator_client.execute_transaction(ctx, cb)) {')
B('T04', S2, 'while(!m_coordinator_client.execute_transaction(ctx, cb)) {', 'while(m_coordinator_client.execute_transaction(ctx, cb)) {')
B('T04', S2, 'result_handler(res, res_cb);', 'if(res.has_value()) {\n                result_handler(res, res_cb);\n                }')
B('T04', S2, 'm_opts.m_sentinel_private_keys.find(m_sentinel_id);', 'm_opts.m_sentinel_private_keys.begin();')
B('T04', S2, 'if(m_opts.m_attestation_threshold > 0) {\n                m_logger', 'if(m_opts.m_attestation_threshold > 1) {\n                m_logger')
B('T04', S2, '''            if(ep == m_opts.m_sentinel_endpoints[m_sentinel_id]) {
                continue;
            }
''', '')
B('T04', S2, 'std::vector<network::endpoint_t>{ep},', 'std::vector<network::endpoint_t>{m_opts.m_sentinel_endpoints[0]},')
B('T04', S2, '''                m_logger->warn("Failed to start sentinel client");
''', '''                m_logger->warn("Failed to start sentinel client");
                continue;
''')
B('T04', S1, 'if(!res.has_value()) {\n            send_transaction(tx);\n        }', 'send_transaction(tx);')
B('T04', S1, 'status = tx_status::static_invalid;', 'status = tx_status::state_invalid;')
B('T04', S1, '        compact_tx.m_attestations.insert(attestation);\n', '')
B('T04', S1, '''        if(res.has_value()) {
            return std::nullopt;
        }
        auto compact_tx''', '        auto compact_tx')
B('T04', S1, '''                            "invalid according to remote sentinel");
            return;''', '''                            "invalid according to remote sentinel");
            send_compact_tx(ctx);
            return;''')
B('T04', S1, 'ctx.m_attestations.size() < m_opts', 'ctx.m_attestations.empty() && 0 < m_opts')
B('T04', S1, 'validate_result_handler(v_res, tx, ctx, r);', 'validate_result_handler(v_res, tx, ctx, requested);')
B('T04', S1, '(i + offset) %', '(i * offset) %')
B('T04', S1, 'inputs_sent.size() == ctx.m_inputs.size()', '!inputs_sent.empty()')
B('T04', S1, 'size_t i = 0; i < m_shard_data.size()', 'size_t i = 1; i < m_shard_data.size()')
B('T04', S1, '''            if(!m_shard_network.connected(pid)) {
                continue;
            }
''', '')
B('T04', S1, 'size_t j = 0;', 'size_t j = 1;')
B('T04', S1, '''                if(inputs_sent.find(j) != inputs_sent.end()) {
                    continue;
                }
''', '')
B('T04', S1, 'ctx.m_inputs[j])', 'ctx.m_inputs[i])')
B('T04', S1, '''range, ctx.m_inputs[j])) {
                    continue;
                }
                inputs_sent.insert(j);''', '''range, ctx.m_inputs[j])) {
                    inputs_sent.insert(j);
                    continue;
                }
                inputs_sent.insert(j);''')
B('T04', S1, '                should_send = true;\n            }', '                should_send = true;\n                break;\n            }')
B('T04', S1, 'm_shard_network.send(ctx_pkt, pid);', 'm_shard_network.send(ctx_pkt, m_shard_data[i].m_peer_id);')
B('T04', S1, 'm_opts.m_shard_ranges[i];', 'm_opts.m_shard_ranges[peer_id];')
B('T04', S1, 'should_send = true;', 'should_send = inputs_sent.size() == 1;')
Q('T04', S1, '''                if(inputs_sent.find(j) != inputs_sent.end()) {
                    continue;
                }
                if(!config::hash_in_shard_range(range, ctx.m_inputs[j])) {
                    continue;
                }
                inputs_sent.insert(j);
                should_send = true;''', '''                const auto sent = inputs_sent.count(j) != 0;
                if(!sent
                   && config::hash_in_shard_range(range, ctx.m_inputs[j])) {
                    should_send = true;
                    inputs_sent.insert(j);
                }''')
Q('T04', S1, '''            const auto& range = m_shard_data[idx].m_range;
            const auto& pid = m_shard_data[idx].m_peer_id;
''', '''            const auto& data = m_shard_data[idx];
            const auto range = data.m_range;
            const auto pid = data.m_peer_id;
''')
Q('T04', S1, '''        tx_status status{tx_status::pending};
        if(res.has_value()) {
            status = tx_status::static_invalid;
        }
''', '''        const auto status = res.has_value() ? tx_status::static_invalid : tx_status::pending;
''')
Q('T04', S1, '''        if(ctx.m_attestations.size() < m_opts.m_attestation_threshold) {
            auto success''', '''        if(ctx.m_attestations.size() >= m_opts.m_attestation_threshold) {
            send_compact_tx(ctx);
            return;
        }
        {
            auto success''')
Q('T04', S2, '''            auto success = false;
            while(!success) {''', '''            while(true) {''', (S2, '''                success
                    = m_sentinel_clients[sentinel_id]''', '''                if(
                    m_sentinel_clients[sentinel_id]'''), (S2, '''                                                    r);
                        });
''', '''                                                    r);
                        })) { return; }
'''))
Q('T04', S2, '''            auto resp = cbdc::sentinel::execute_response{
                cbdc::sentinel::tx_status::confirmed,
                std::nullopt};
            if(!res.value()) {
                resp.m_tx_status = cbdc::sentinel::tx_status::state_invalid;
            }
            res_cb(resp);''', '''            res_cb(cbdc::sentinel::execute_response{
                *res ? cbdc::sentinel::tx_status::confirmed : cbdc::sentinel::tx_status::state_invalid,
                std::nullopt});''')
Q('T04', S2, '''        while(!m_coordinator_client.execute_transaction(ctx, cb)) {''', '''        for(;;) {
            if(m_coordinator_client.execute_transaction(ctx, cb)) { break; }''')
Q('T04', S2, '''                            auto r = requested;
                            r.insert(sentinel_id);
                            validate_result_handler(v_res,
                                                    tx,
                                                    result_callback,
                                                    ctx,
                                                    r);''', '''                            auto asked = requested;
                            asked.emplace(sentinel_id);
                            validate_result_handler(std::move(v_res),
                                                    tx,
                                                    result_callback,
                                                    ctx,
                                                    std::move(asked));''')

# ---- R01: raft log
LOG = 'util/raft/log_store.cpp'
LOGH = 'util/raft/log_store.hpp'
B('R01', 'util/raft/index_comparator.cpp', 'if(a_val < b_val) {', 'if(a_val > b_val) {')
B('R01', 'util/raft/index_comparator.cpp', '''        if(a_val == b_val) {
            return 0;
        }
''', '''        if(a_val == b_val) {
            return -1;
        }
''')
B('R01', 'util/raft/index_comparator.cpp', 'std::memcpy(&a_val, a.data(), sizeof(a_val));', 'std::memcpy(&a_val, a.data(), sizeof(uint32_t));')
B('R01', LOG, 'opt.comparator = &m_cmp;', '')
B('R01', LOG, 'opt.create_if_missing = true;', '')
B('R01', LOG, '''        if(!res.ok()) {
            return false;
        }
''', '''        if(!res.ok()) {
            return true;
        }
''')
B('R01', LOG, '''                = get_first_or_last_index<false>(m_db.get(), m_read_opt) + 1;
            m_start_idx
                = get_first_or_last_index<true>(m_db.get(), m_read_opt);
        }

        return true;''', '''                = get_first_or_last_index<false>(m_db.get(), m_read_opt);
            m_start_idx
                = get_first_or_last_index<true>(m_db.get(), m_read_opt);
        }

        return true;''')
B('R01', LOG, '''            m_start_idx
                = get_first_or_last_index<true>(m_db.get(), m_read_opt);
        }

        return true;''', '''            m_start_idx = 1;
        }

        return true;''')
B('R01', LOG, '''            if(!it->Valid()) {
                return 1;
            }''', '''            if(!it->Valid()) {
                return 0;
            }''')
B('R01', LOG, '''            it->SeekToLast();
            if(!it->Valid()) {
                return 0;''', '''            it->SeekToFirst();
            if(!it->Valid()) {
                return 0;''')
B('R01', LOGH, '''        index_comparator m_cmp;
''', '', (LOGH, '''        leveldb::WriteOptions m_write_opt;
''', '''        leveldb::WriteOptions m_write_opt;
        index_comparator m_cmp;
'''))
B('R01', LOG, '        std::lock_guard<std::mutex> l(m_db_mut);\n        return m_next_idx;', '        return m_next_idx;')
B('R01', LOG, '        return m_start_idx;', '        return m_next_idx;')
B('R01', LOG, '''            it->SeekToLast();

            if(!it->Valid()) {''', '''            it->SeekToFirst();

            if(!it->Valid()) {''')
B('R01', LOG, 'std::memcpy(buf->data_begin(), slice.data(), buf->size());', 'std::memcpy(buf->data_begin(), slice.data(), buf->size() - 1);')
B('R01', LOG, 'const auto key = get_key_slice(m_next_idx);', 'const auto key = get_key_slice(m_next_idx - 1);')
B('R01', LOG, '            m_next_idx++;\n            return m_next_idx - 1;', '            m_next_idx++;\n            return m_next_idx;')
B('R01', LOG, '''            require_stored(status);

            m_next_idx++;''', '''            static_cast<void>(status);

            m_next_idx++;''')
B('R01', LOG, '        if(!status.ok()) {\n            std::exit', '        if(status.IsCorruption()) {\n            std::exit')
B('R01', LOG, 'for(uint64_t i = index + 1; i < m_next_idx; i++) {', 'for(uint64_t i = index + 1; i + 1 < m_next_idx; i++) {')
B('R01', LOG, 'for(uint64_t i = index + 1; i < m_next_idx; i++) {', 'for(uint64_t i = index; i < m_next_idx; i++) {')
B('R01', LOG, '            m_next_idx = index + 1;\n', '            m_next_idx = std::max(m_next_idx, index + 1);\n')
B('R01', LOG, '            m_next_idx = index + 1;\n', '')
B('R01', LOG, '''        batch.Put(key.first, value.first);

        {
            std::lock_guard<std::mutex> l(m_db_mut);
''', '''        m_db->Put(m_write_opt, key.first, value.first);

        {
            std::lock_guard<std::mutex> l(m_db_mut);
''')
B('R01', LOG, 'const auto first_key = get_key_slice(start);', 'const auto first_key = get_key_slice(start + 1);')
B('R01', LOG, 'element_type>(end - start);', 'element_type>(end - start + 1);')
B('R01', LOG, '''            for(size_t i{0}; i < ret->size(); [&]() {''', '''            for(size_t i{1}; i < ret->size(); [&]() {''')
B('R01', LOG, '''            for(size_t i{0}; i < ret->size(); [&]() {''', '''            for(size_t i{0}; i + 1 < ret->size(); [&]() {''')
B('R01', LOG, '''                assert(it->Valid());
                const auto val_slice = it->value();''', '''                if(!it->Valid()) { break; }
                const auto val_slice = it->value();''')
B('R01', LOG, '''                    it->Next();
                    i++;
                }()) {
''', '''                    i++;
                }()) {
                it->Next();
''')
B('R01', LOG, '''        const auto key = get_key_slice(index);
        std::string val;''', '''        const auto key = get_key_slice(index + 1);
        std::string val;''')
B('R01', LOG, 'leveldb::Slice(val.data(), val.size());', 'leveldb::Slice(val.data(), val.size() - 1);')
B('R01', LOG, 'log_entries(index, index + static_cast<uint64_t>(cnt));', 'log_entries(index + 1, index + 1 + static_cast<uint64_t>(cnt));')
B('R01', LOG, '''            bs.put_u64(buf->size());
            bs.put_raw''', '''            bs.put_u32(static_cast<uint32_t>(buf->size()));
            bs.put_raw''')
B('R01', LOG, 'total_len += buf->size();', 'total_len = buf->size();')
B('R01', LOG, '            bufs[i] = std::move(buf);\n            i++;', '            i++;\n            bufs[i % bufs.size()] = std::move(buf);')
B('R01', LOG, 'bs.put_raw(buf->data_begin(), buf->size());', 'bs.put_raw(bufs[0]->data_begin(), buf->size());')
B('R01', LOG, 'auto key = get_key_slice(index + i);', 'auto key = get_key_slice(index + i + 1);')
B('R01', LOG, 'auto val = get_value_slice(entries[i]);', 'auto val = get_value_slice(entries[0]);')
B('R01', LOG, 'for(size_t i{0}; i < cnt; i++) {', 'for(size_t i{1}; i < cnt; i++) {')
B('R01', LOG, '''            m_start_idx
                = get_first_or_last_index<true>(m_db.get(), m_read_opt);
            m_next_idx
                = get_first''', '''            m_next_idx
                = get_first''')
B('R01', LOG, '            m_next_idx = std::max(m_next_idx, m_start_idx);\n', '')
B('R01', LOG, 'for(uint64_t i{m_start_idx}; i <= last_log_index; i++) {', 'for(uint64_t i{m_start_idx}; i < last_log_index; i++) {')
B('R01', LOG, 'm_start_idx = last_log_index + 1;', 'm_start_idx = last_log_index;')
B('R01', LOG, '            if(last_log_index < m_start_idx) {', '            if(last_log_index + 1 < m_start_idx) {')
B('R01', LOG, 'sync_opts.sync = true;', 'sync_opts.sync = false;')
B('R01', LOG, '        batch.Delete(dummy_key_slice);\n', '')
B('R01', LOG, '            return m_db->Write(sync_opts, &batch).ok();', '            m_db->Write(sync_opts, &batch); return true;') if False else None
Q('R01', LOG, '            m_next_idx++;\n            return m_next_idx - 1;', '            const auto idx = m_next_idx;\n            m_next_idx = idx + 1;\n            return idx;')
Q('R01', LOG, '''            for(size_t i{0}; i < ret->size(); [&]() {
                    it->Next();
                    i++;
                }()) {
''', '''            for(size_t i{0}; i < ret->size(); i++, it->Next()) {
''')
Q('R01', LOG, '''            for(size_t i{0}; i < ret->size(); [&]() {
                    it->Next();
                    i++;
                }()) {
''', '''            for(size_t i{0}; i < ret->size(); i++) {
''', (LOG, '''                (*ret)[i] = std::move(entry);
''', '''                (*ret)[i] = std::move(entry);
                it->Next();
'''))
Q('R01', LOG, '''        batch.Put(key.first, value.first);

        {
            std::lock_guard<std::mutex> l(m_db_mut);
''', '''
        {
            std::lock_guard<std::mutex> l(m_db_mut);
''', (LOG, '''            const auto status = m_db->Write(m_write_opt, &batch);
            require_stored(status);

            m_next_idx = index + 1;''', '''            batch.Put(key.first, value.first);
            require_stored(m_db->Write(m_write_opt, &batch));

            m_next_idx = index + 1;'''))
Q('R01', LOG, 'for(uint64_t i = index + 1; i < m_next_idx; i++) {', 'for(auto i = index + 1; i != m_next_idx; ++i) {') if False else None
Q('R01', LOG, '''            auto key = get_key_slice(index + i);
            auto val = get_value_slice(entries[i]);
            batch.Put(key.first, val.first);''', '''            auto val = get_value_slice(entries[i]);
            auto key = get_key_slice(i + index);
            batch.Put(key.first, val.first);''')
Q('R01', LOG, '''            m_start_idx = last_log_index + 1;
            m_next_idx = std::max(m_next_idx, m_start_idx);''', '''            m_start_idx = last_log_index + 1;
            if(m_next_idx < m_start_idx) {
                m_next_idx = m_start_idx;
            }''')
Q('R01', LOG, '''        if(a_val == b_val) {
            return 0;
        }

        if(a_val < b_val) {
            return -1;
        }

        return 1;''', '''        return a_val < b_val ? -1 : static_cast<int>(a_val > b_val);''') if False else None
Q('R01', 'util/raft/index_comparator.cpp', '''        if(a_val == b_val) {
            return 0;
        }

        if(a_val < b_val) {
            return -1;
        }

        return 1;''', '''        if(a_val < b_val) {
            return -1;
        }
        return a_val > b_val ? 1 : 0;''')
Q('R01', LOG, '''        size_t total_len{0};
        for(const auto& entry : *entries) {
            auto buf = entry->serialize();
            total_len += buf->size();
''', '''        size_t total_len{8};
        for(const auto& entry : *entries) {
            auto buf = entry->serialize();
            total_len = total_len + buf->size() + 8;
''', (LOG, '''            sizeof(uint64_t) + static_cast<size_t>(cnt) * sizeof(uint64_t)
            + total_len);''', '''total_len);'''))
Q('R01', LOG, '''            auto entry = nuraft::log_entry::deserialize(*buf);
            assert(entry);
            entries[i] = std::move(entry);
        }

        std::vector<data_slice::second_type> data_slices(entries.size() * 2);
        leveldb::WriteBatch batch;
        for(size_t i{0}; i < entries.size(); i++) {
            auto key = get_key_slice(index + i);
            auto val = get_value_slice(entries[i]);
''', '''            auto entry = nuraft::log_entry::deserialize(*buf);
            auto key = get_key_slice(index + i);
            auto val = get_value_slice(entry);
''', (LOG, '''        std::vector<nuraft::ptr<nuraft::log_entry>> entries(cnt);

        for(''', '''        std::vector<data_slice::second_type> data_slices(cnt * 2);
        leveldb::WriteBatch batch;
        for('''))

# ---- R02: raft nodes
RND = 'util/raft/node.cpp'
RSM = 'util/raft/state_manager.cpp'
RRS = 'util/raft/rpc_server.hpp'
B('R02', RND, 'm_port(raft_endpoints[m_node_id].second)', 'm_port(raft_endpoints[0].second)')
B('R02', RND, 'static_cast<uint32_t>(m_node_id + 1),', 'static_cast<uint32_t>(m_node_id),')
B('R02', RND, 'node_type + "_raft_log_" + std::to_string(m_node_id)', 'node_type + "_raft_log_0"')
B('R02', RND, 'node_type + "_raft_state_" + std::to_string(m_node_id) + ".dat"', 'node_type + "_raft_config_" + std::to_string(m_node_id) + ".dat"')
B('R02', RND, 'node_type + "_raft_config_" + std::to_string(m_node_id) + ".dat"', '"raft_config_" + std::to_string(m_node_id) + ".dat"')
B('R02', RND, 'm_init_opts.raft_callback_ = std::move(raft_cb);\n', '')
B('R02', RND, 'if(m_blocking) {', 'if(!m_blocking) {')
B('R02', RND, 'params.auto_forwarding_ = false;', 'params.auto_forwarding_ = true;')
B('R02', RND, '                                          params,\n', '                                          raft_params,\n')
B('R02', RND, '''                m_raft_instance.reset();
                return false;''', '''                break;''')
B('R02', RND, '''            m_log->error("Failed to initialize raft launcher");
            return false;''', '''            m_log->error("Failed to initialize raft launcher");
            return true;''')
B('R02', RND, '''        if(!ret->get_accepted()) {
            return false;
        }
''', '')
B('R02', RND, 'if(result_fn) {', 'if(!result_fn) {')
B('R02', RND, '''        if(!ret->get_accepted()
           || ret->get_result_code()''', '''        if(ret->get_result_code()''')
B('R02', RND, '''        if(!ret->get_accepted()
           || ret->get_result_code()''', '''        if(!ret->get_accepted()
           && ret->get_result_code()''')
B('R02', RND, '''        return m_raft_instance->is_leader();''', '''        return m_raft_instance->get_leader() >= 0;''')
B('R02', RND, '''    node::~node() {
        stop();''', '''    node::~node() {''')
B('R02', RND, '''        return m_sm->last_commit_index();''', '''        return m_sm->last_commit_index() + 1;''')
B('R02', RSM, '''        file.flush();
        file.close();
        if(!file) {
            std::exit(EXIT_FAILURE);
        }
''', '')
B('R02', RSM, '''        const auto tmp_file = filename + ".tmp";''', '''        const auto tmp_file = filename;''')
B('R02', RSM, '''
        std::filesystem::rename(tmp_file, filename);''', '')
B('R02', RSM, '''        file.flush();
        file.close();
        if(!file) {
            std::exit(EXIT_FAILURE);
        }

        std::filesystem::rename(tmp_file, filename);''', '''        std::filesystem::rename(tmp_file, filename);
        file.flush();
        file.close();
        if(!file) {
            std::exit(EXIT_FAILURE);
        }
''')
B('R02', RSM, 'std::vector<char> char_buf(buf->size());', 'std::vector<char> char_buf(buf->size() - 1);')
B('R02', RSM, 'std::ios::binary | std::ios::trunc', 'std::ios::binary | std::ios::app')
B('R02', RSM, '''        if(!file.read(buf.data(), static_cast<std::streamsize>(file_sz))) {
            return nullptr;
        }''', '''        file.read(buf.data(), static_cast<std::streamsize>(file_sz));''')
B('R02', RSM, 'static_cast<std::streamsize>(file_sz))) {', 'static_cast<std::streamsize>(file_sz / 2))) {')
B('R02', RSM, '= nuraft::cs_new<nuraft::srv_config>(i + 1, ep_str);', '= nuraft::cs_new<nuraft::srv_config>(i, ep_str);')
B('R02', RSM, 'for(size_t i = 0; i < m_raft_endpoints.size(); i++) {', 'for(size_t i = 1; i < m_raft_endpoints.size(); i++) {')
B('R02', RSM, 'auto& ep = m_raft_endpoints[i];', 'auto& ep = m_raft_endpoints[0];')
B('R02', RSM, 'save_object(state, m_state_file);', 'save_object(state, m_config_file);')
B('R02', RSM, 'load_object<nuraft::srv_state>(m_state_file);', 'load_object<nuraft::srv_state>(m_config_file);')
B('R02', RSM, '''        if(!log->load(m_log_dir)) {
            return nullptr;
        }''', '''        log->load(m_log_dir);''')
B('R02', RSM, '''        if(!config) {
            auto''', '''        if(!config || m_raft_endpoints.size() > 3) {
            auto''')
B('R02', RSM, 'return m_id;', 'return m_id - 1;')
B('R02', RSM, '''        return config;
    }''', '''        return nuraft::cs_new<nuraft::cluster_config>();
    }''')
B('R02', RRS, '''            if(!m_impl->is_leader()) {
                return false;
            }
''', '')
B('R02', RRS, '''            if(!m_impl->is_leader()) {
                return false;''', '''            if(!m_impl->is_leader()) {
                return true;''')
B('R02', RRS, 'return success;', 'return true;')
B('R02', RRS, '''                    if(err) {
                        resp_cb(std::nullopt);
                        return;
                    }
''', '''                    if(err) {
                        return;
                    }
''')
B('R02', RRS, '''                    if(!res) {
                        resp_cb(std::nullopt);
                        return;
                    }
''', '''                    if(!res) {
                        resp_cb(std::nullopt);
                    }
''')
B('R02', RRS, 'resp_pkt.append(res->data_begin(), res->size());', 'resp_pkt.append(res->data(), res->size() - 1);')
B('R02', RRS, 'resp_pkt.append(res->data_begin(), res->size());', 'resp_pkt.append(req_buf->data_begin(), req_buf->size());')
B('R02', RRS, 'resp_cb(std::move(resp_pkt));', 'resp_cb(cbdc::buffer());')
B('R02', RRS, 'bs.put_raw(request_buf.data(), request_buf.size());', 'bs.put_raw(request_buf.data(), request_buf.size() - 1);')
B('R02', RRS, '''            bs.put_raw(request_buf.data(), request_buf.size());
''', '')
B('R02', RRS, 'nuraft::buffer::alloc(request_buf.size());', 'nuraft::buffer::alloc(request_buf.size() + 8);')
B('R02', RRS, 'm_impl = std::move(impl);', 'if(!m_impl) { m_impl = std::move(impl); }')
B('R02', RRS, 'return request_handler(std::move(req), std::move(resp_cb));', 'request_handler(std::move(req), std::move(resp_cb)); return true;')
Q('R02', RND, '''        if(m_blocking) {
            params.return_method_ = nuraft::raft_params::blocking;
        } else {
            params.return_method_ = nuraft::raft_params::async_handler;
        }''', '''        params.return_method_ = m_blocking ? nuraft::raft_params::blocking
                                           : nuraft::raft_params::async_handler;''')
Q('R02', RND, '''        auto ret = m_raft_instance->append_entries({new_log});
        if(!ret->get_accepted()
           || ret->get_result_code() != nuraft::cmd_result_code::OK) {
            return std::nullopt;
        }

        return ret->get();''', '''        auto ret = m_raft_instance->append_entries({new_log});
        if(ret->get_accepted()
           && ret->get_result_code() == nuraft::cmd_result_code::OK) {
            return ret->get();
        }
        return std::nullopt;''')
Q('R02', RND, '''        if(!ret->get_accepted()) {
            return false;
        }

        if(result_fn) {
            ret->when_ready(result_fn);
        }

        return true;''', '''        const auto accepted = ret->get_accepted();
        if(accepted && result_fn) {
            ret->when_ready(result_fn);
        }

        return accepted;''')
Q('R02', RSM, '''        if(!config) {
            auto cluster_config = nuraft::cs_new<nuraft::cluster_config>();
            for(size_t i = 0; i < m_raft_endpoints.size(); i++) {
                auto& ep = m_raft_endpoints[i];
                auto ep_str = ep.first + ":" + std::to_string(ep.second);
                auto srv_config
                    = nuraft::cs_new<nuraft::srv_config>(i + 1, ep_str);''', '''        if(config == nullptr) {
            auto cluster_config = nuraft::cs_new<nuraft::cluster_config>();
            for(size_t i = 0; i < m_raft_endpoints.size(); ++i) {
                const auto& [host, port] = m_raft_endpoints[i];
                auto srv_config
                    = nuraft::cs_new<nuraft::srv_config>(i + 1, host + ":" + std::to_string(port));''')
Q('R02', RSM, '''        auto config = load_object<nuraft::cluster_config>(m_config_file);
        if(!config) {''', '''        auto config = load_object<nuraft::cluster_config>(m_config_file);
        if(config) {
            return config;
        }
        {''')
Q('R02', RSM, '''        std::vector<char> char_buf(buf->size());
        std::memcpy(char_buf.data(), buf->data_begin(), char_buf.size());
''', '''        const auto len = buf->size();
        std::vector<char> char_buf(len);
        std::memcpy(char_buf.data(), buf->data_begin(), len);
''')
Q('R02', RSM, '''        file.flush();
        file.close();
        if(!file) {''', '''        file.close();
        if(file.fail()) {''')
Q('R02', RRS, '''                    if(err) {
                        resp_cb(std::nullopt);
                        return;
                    }

                    const auto res = r.get();
                    if(!res) {
                        resp_cb(std::nullopt);
                        return;
                    }

                    auto resp_pkt = cbdc::buffer();
                    resp_pkt.append(res->data_begin(), res->size());
                    resp_cb(std::move(resp_pkt));''', '''                    auto ret = std::optional<cbdc::buffer>();
                    if(!err) {
                        const auto res = r.get();
                        if(res) {
                            ret = cbdc::buffer();
                            ret->append(res->data_begin(), res->size());
                        }
                    }
                    resp_cb(std::move(ret));''')
Q('R02', RRS, '''            if(!m_impl->is_leader()) {
                return false;
            }
''', '''            const auto leader = m_impl->is_leader();
            if(!leader) {
                return false;
            }
''')
Q('R02', RRS, '[&](buffer req, response_callback_type resp_cb) {', '[this](buffer req, response_callback_type resp_cb) -> bool {')

# ---- R03: atomizer snapshots
ASM = 'uhs/atomizer/atomizer/state_machine.cpp'
B('R03', ASM, '''            if(!state_machine::apply_snapshot(*snp)) {
                std::exit(EXIT_FAILURE);
            }''', '''            state_machine::apply_snapshot(*snp);''')
B('R03', ASM, '''        if(snp) {
            if(!state_machine::apply_snapshot(*snp)) {''', '''        if(!snp) {
            if(!state_machine::apply_snapshot(*snp)) {''')
B('R03', ASM, '            m_blocks = snp->m_blocks;\n', '')
B('R03', ASM, '            m_atomizer = snp->m_atomizer;\n', '')
B('R03', ASM, '            m_last_committed_idx = s.get_last_log_idx();\n        }', '        }')
B('R03', ASM, '        return snp.has_value();', '        return true;')
B('R03', ASM, 'auto snp = read_snapshot(s.get_last_log_idx());', 'auto snp = read_snapshot(0);')
B('R03', ASM, '            m_last_committed_idx = s.get_last_log_idx();\n        }', '            m_last_committed_idx = s.get_last_log_idx() - 1;\n        }')
B('R03', ASM, '''            if(!(ser << snp)) {
                std::exit(EXIT_FAILURE);
            }

            ss.flush();
            ss.close();
            if(!ss) {
                std::exit(EXIT_FAILURE);
            }
''', '''            if(!(ser << snp)) {
                std::exit(EXIT_FAILURE);
            }
''')
B('R03', ASM, '''            if(!(ser << snp)) {
                std::exit(EXIT_FAILURE);
            }
''', '''            ser << snp;
''')
B('R03', ASM, '''                if(name == m_tmp_file
                   || std::stoull(name) < s.get_last_log_idx()) {''', '''                if(name == m_tmp_file
                   || std::stoull(name) <= s.get_last_log_idx()) {''')
B('R03', ASM, '''                if(name == m_tmp_file
                   || std::stoull(name) < s.get_last_log_idx()) {''', '''                if(name != m_tmp_file) {''')
B('R03', ASM, '''            std::unique_lock<std::shared_mutex> l(m_snp_mut);
            auto ss = std::ofstream(tmp_path,
                                    std::ios::out | std::ios::trunc
                                        | std::ios::binary);
            if(!ss.good()) {
                // We're''', '''            std::shared_lock<std::shared_mutex> l(m_snp_mut);
            auto ss = std::ofstream(tmp_path,
                                    std::ios::out | std::ios::trunc
                                        | std::ios::binary);
            if(!ss.good()) {
                // We're''')
B('R03', ASM, '''            std::shared_lock<std::shared_mutex> l(m_snp_mut);
            auto ss = std::ifstream''', '''            auto ss = std::ifstream''')
B('R03', ASM, '        when_done(ret, except);\n', '')
B('R03', ASM, 'bool ret = true;', 'bool ret = false;')
B('R03', ASM, '''            std::filesystem::rename(tmp_path, path, err);
            if(err) {
                std::exit(EXIT_FAILURE);
            }

            for(''', '''            for(''')
B('R03', ASM, '''            std::filesystem::rename(tmp_path, path, err);
            if(err) {
                std::exit(EXIT_FAILURE);
            }

            for(''', '''            std::filesystem::rename(tmp_path, path, err);

            for(''')
B('R03', ASM, 'auto snp = snapshot{m_atomizer,\n', 'auto snp = snapshot{std::make_shared<atomizer>(0, m_stxo_cache_depth),\n')
B('R03', ASM, '        auto path = get_snapshot_path(s.get_last_log_idx());\n        {\n            std::shared_lock', '        auto path = get_snapshot_path(0);\n        {\n            std::shared_lock')
B('R03', ASM, 'return m_snapshot_dir + "/" + std::to_string(idx);', 'return m_snapshot_dir + "/" + std::to_string(idx % 10);')
B('R03', ASM, 'return m_snapshot_dir + "/" + std::to_string(idx);', 'return get_tmp_path();')
B('R03', ASM, 'if(f_idx > max_idx) {', 'if(f_idx < max_idx) {')
B('R03', ASM, '                    max_idx = f_idx;', '                    max_idx = f_idx;\n                    break;')
B('R03', ASM, '''                if(name == m_tmp_file) {
                    continue;
                }
                auto f_idx''', '''                if(name == m_tmp_file) {
                    break;
                }
                auto f_idx''')
B('R03', ASM, '            idx = max_idx;\n', '')
B('R03', ASM, '''        if(!(deser >> snp)) {
            std::exit(EXIT_FAILURE);
        }
        snp.m''', '''        deser >> snp;
        snp.m''')
B('R03', ASM, '''            if(max_idx == 0) {
                return std::nullopt;
            }
''', '')
B('R03', ASM, '''            if(!ss.good()) {
                // Requested snapshot doesn't exit anymore, not fatal
                return -1;
            }''', '''            if(!ss.good()) {
                // Requested snapshot doesn't exit anymore, not fatal
                return 0;
            }''')
B('R03', ASM, 'is_last_obj = true;', 'is_last_obj = false;')
B('R03', ASM, 'std::memcpy(buf->data_begin(), read_vec.data(), sz);', 'std::memcpy(buf->data_begin(), read_vec.data(), sz / 2);')
B('R03', ASM, '''            data_out = std::move(buf);
''', '')
B('R03', ASM, '        obj_id++;\n', '')
B('R03', ASM, '''            auto path = get_snapshot_path(s.get_last_log_idx());
            auto err''', '''            auto path = get_snapshot_path(obj_id);
            auto err''')
B('R03', ASM, 'std::memcpy(write_vec.data(), data.data_begin(), data.size());', 'std::memcpy(write_vec.data(), data.data(), data.size());')
B('R03', ASM, '''            ss.flush();
            ss.close();
            if(!ss) {
                std::exit(EXIT_FAILURE);
            }

            auto path =''', '''            auto path =''')
B('R03', ASM, '        return snp->m_snp;', '        return nullptr;')
Q('R03', ASM, '''        if(snp) {
            if(!state_machine::apply_snapshot(*snp)) {
                std::exit(EXIT_FAILURE);
            }
        }''', '''        if(snp && !state_machine::apply_snapshot(*snp)) {
            std::exit(EXIT_FAILURE);
        }''')
Q('R03', ASM, '''        if(snp) {
            m_blocks = snp->m_blocks;
            m_atomizer = snp->m_atomizer;
            m_last_committed_idx = s.get_last_log_idx();
        }
        return snp.has_value();''', '''        if(!snp.has_value()) {
            return false;
        }
        m_last_committed_idx = s.get_last_log_idx();
        m_atomizer = std::move(snp->m_atomizer);
        m_blocks = std::move(snp->m_blocks);
        return true;''')
Q('R03', ASM, '''                if(f_idx > max_idx) {
                    max_idx = f_idx;
                }''', '''                max_idx = std::max<uint64_t>(max_idx, f_idx);''')
Q('R03', ASM, '''                if(name == m_tmp_file) {
                    continue;
                }
                auto f_idx = std::stoull(name);
                if(f_idx > max_idx) {
                    max_idx = f_idx;
                }''', '''                if(name != m_tmp_file) {
                    auto f_idx = std::stoull(name);
                    if(max_idx < f_idx) {
                        max_idx = f_idx;
                    }
                }''')
Q('R03', ASM, '''        nuraft::ptr<std::exception> except(nullptr);
        bool ret = true;

        auto snp_ser = s.serialize();''', '''        auto snp_ser = s.serialize();''', (ASM, '''        when_done(ret, except);''', '''        bool ret{true};
        nuraft::ptr<std::exception> except{};
        when_done(ret, except);'''))
Q('R03', ASM, '''            ss.flush();
            ss.close();
            if(!ss) {
                std::exit(EXIT_FAILURE);
            }

            auto err =''', '''            ss.close();
            if(ss.fail()) {
                std::exit(EXIT_FAILURE);
            }

            auto err =''')
Q('R03', ASM, '''            auto buf = nuraft::buffer::alloc(sz);
            auto read_vec = std::vector<char>(sz);
            ss.read(read_vec.data(),
                    static_cast<std::streamsize>(buf->size()));''', '''            auto read_vec = std::vector<char>(sz);
            auto buf = nuraft::buffer::alloc(read_vec.size());
            ss.read(read_vec.data(), static_cast<std::streamsize>(sz));''')

# ---- N06
SNC = 'uhs/sentinel/client.cpp'
LSC = 'uhs/twophase/locking_shard/client.cpp'
WTC = 'uhs/atomizer/watchtower/client.cpp'
RLC = 'parsec/runtime_locking_shard/client.cpp'
ARC = 'uhs/atomizer/archiver/client.cpp'
S2S = 'uhs/twophase/sentinel_2pc/server.cpp'
ATS = 'uhs/atomizer/sentinel/server.cpp'
CRS = 'uhs/twophase/coordinator/server.cpp'
B('N06', SNC, '''        auto res = m_client.call(validate_request{std::move(tx)});''', '''        auto res = m_client.call(execute_request{std::move(tx)});''')
B('N06', SNC, '''            validate_request{std::move(tx)},
            [cb = std::move(result_callback)](std::optional<response> res) {
                if(!res.has_value()) {
                    cb(std::nullopt);
                    return;
                }''', '''            validate_request{std::move(tx)},
            [cb = std::move(result_callback)](std::optional<response> res) {
                if(!res.has_value()) {
                    return;
                }''')
B('N06', SNC, '''            execute_request{std::move(tx)},
            [cb = std::move(result_callback)](std::optional<response> res) {
                if(!res.has_value()) {
                    cb(std::nullopt);
                    return;
                }
''', '''            execute_request{std::move(tx)},
            [cb = std::move(result_callback)](std::optional<response> res) {
                if(!res.has_value()) {
                    cb(std::nullopt);
                }
''')
B('N06', LSC, '''        auto req = request{dtx_id, discard_params()};
        auto res = send_request(req);
        return res.has_value();''', '''        auto req = request{dtx_id, discard_params()};
        send_request(req);
        return true;''')
B('N06', LSC, '''        while(m_running && !res.has_value()) {
            res = m_client->call(req, result_timeout);
            if(!res.has_value()) {''', '''        for(size_t i{0}; i < 10 && m_running && !res.has_value(); i++) {
            res = m_client->call(req, result_timeout);
            if(!res.has_value()) {''')
B('N06', LSC, '''        m_client->stop();''', '''        m_client.reset();''')
B('N06', LSC, '''        m_running = false;
        // Another''', '''        // Another''')
B('N06', LSC, '''        auto req = request{dtx_id, std::move(complete_txs)};
        auto res = send_request(req);''', '''        auto req = request{dtx_id, std::move(complete_txs)};
        auto res = m_client->call(req, std::chrono::seconds(3));''')
B('N06', WTC, '''        m_network.close();
        // The handler thread may be waiting for a response
        m_res_q.clear();
''', '''        m_network.close();
''')
B('N06', WTC, '''    blocking_client::~blocking_client() {
        m_network.close();
        if(m_client_thread.joinable()) {''', '''    blocking_client::~blocking_client() {
        if(m_client_thread.joinable()) {''')
B('N06', WTC, '''        std::shared_ptr<response> res;
        if(!m_res_q.pop(res)) {
            return nullptr;
        }
        return std::make_shared<best_block_height_response>(''', '''        std::shared_ptr<response> res;
        m_res_q.pop(res);
        return std::make_shared<best_block_height_response>(''')
B('N06', WTC, '''                auto res = response(deser);
                if(!deser) {
                    return std::nullopt;
                }
                m_res_q.push(
                    std::make_shared<cbdc::watchtower::response>(res));
                return std::nullopt;
            });

        if(!ct.has_value()) {
            return false;
        }

        m_client_thread = std::move(ct.value());

        m_handler_running''', '''                auto res = response(deser);
                m_res_q.push(
                    std::make_shared<cbdc::watchtower::response>(res));
                return std::nullopt;
            });

        if(!ct.has_value()) {
            return false;
        }

        m_client_thread = std::move(ct.value());

        m_handler_running''')
B('N06', WTC, '''    async_client::request_status_update(const status_update_request& req) {
        auto data = request{req};
        auto pkt = make_shared_buffer(data);
        m_network.broadcast(pkt);''', '''    async_client::request_status_update(const status_update_request& req) {
        auto data = request{req};
        auto pkt = make_shared_buffer(data);
        m_network.send_to_one(pkt);
        m_network.broadcast(pkt);
        m_network.broadcast(pkt);''')
B('N06', WTC, '''        m_bbh_handler = handler;''', '''        if(!m_bbh_handler) {
            m_bbh_handler = handler;
        }''')
B('N06', RLC, '''        auto req = prepare_request{ticket_number, state_update, broker_id};''', '''        auto req = prepare_request{broker_id, state_update, ticket_number};''')
B('N06', RLC, '''        auto req = commit_request{ticket_number};
        return m_client->call(
            req,
            [result_callback](std::optional<response> resp) {
                if(!resp.has_value()) {
                    result_callback(
                        shard_error{error_code::internal_error, std::nullopt});
                    return;''', '''        auto req = commit_request{ticket_number};
        return m_client->call(
            req,
            [result_callback](std::optional<response> resp) {
                if(!resp.has_value()) {
                    result_callback(std::nullopt);
                    return;''')
B('N06', RLC, '''        auto req = rollback_request{ticket_number};''', '''        auto req = finish_request{ticket_number};''')
B('N06', ARC, '''        if(!m_sock.send(height)) {''', '''        if(!m_sock.send(height + 1)) {''')
B('N06', ARC, '''        if(!m_sock.receive(resp_pkt)) {
            m_logger->error("Error receiving block from archiver.");
            return std::nullopt;
        }
''', '''        if(!m_sock.receive(resp_pkt)) {
            m_logger->error("Error receiving block from archiver.");
        }
''')
B('N06', S2S, '''                               [&](validate_request v_req) {
                                   return m_impl->validate_transaction(''', '''                               [&](validate_request v_req) {
                                   return m_impl->execute_transaction(''')
B('N06', S2S, '''                return res;''', '''                return res || std::holds_alternative<validate_request>(req);''')
B('N06', ATS, '''        req.second(res);
''', '''        if(res) {
            req.second(res);
        }
''')
B('N06', ATS, '''    server::~server() {
        m_queue.clear();
''', '''    server::~server() {
''')
B('N06', ATS, '''        if(!popped) {
            return false;
        }
''', '''        if(!popped) {
            return true;
        }
''')
B('N06', CRS, '''                return m_impl->execute_transaction(std::move(req),
                                                   std::move(callback));''', '''                m_impl->execute_transaction(std::move(req),
                                            std::move(callback));
                return true;''')
B('N06', 'uhs/twophase/sentinel_2pc/controller.cpp', '''        auto& listener = *rpc_server;
        m_rpc_server = std::make_unique<decltype(m_rpc_server)::element_type>(
            this,
            std::move(rpc_server));
        if(!listener.init()) {
            m_logger->error("Failed to start sentinel RPC server");
            return false;
        }
''', '''        if(!rpc_server->init()) {
            m_logger->error("Failed to start sentinel RPC server");
            return false;
        }
        m_rpc_server = std::make_unique<decltype(m_rpc_server)::element_type>(
            this,
            std::move(rpc_server));
''')
B('N06', 'parsec/ticket_machine/controller.cpp', '''            m_server->register_raft_node(m_raft_serv);
''', '', ('parsec/ticket_machine/controller.cpp', '''                m_logger->fatal("Couldn't start message handler server");
            }
''', '''                m_logger->fatal("Couldn't start message handler server");
            }
            m_server->register_raft_node(m_raft_serv);
'''))
Q('N06', SNC, '''        auto res = m_client.call(execute_request{std::move(tx)});
        if(!res.has_value()) {
            return std::nullopt;
        }
        return std::get<execute_response>(res.value());''', '''        auto req = execute_request{std::move(tx)};
        const auto res = m_client.call(std::move(req));
        if(res) {
            return std::get<execute_response>(*res);
        }
        return std::nullopt;''')
Q('N06', RLC, '''        auto req = commit_request{ticket_number};
        return m_client->call(
            req,
            [result_callback](std::optional<response> resp) {
                if(!resp.has_value()) {
                    result_callback(
                        shard_error{error_code::internal_error, std::nullopt});
                    return;
                }
                assert(
                    std::holds_alternative<commit_return_type>(resp.value()));
                result_callback(std::get<commit_return_type>(resp.value()));
            });''', '''        auto cb = [result_callback](std::optional<response> resp) {
            auto res = commit_return_type(
                shard_error{error_code::internal_error, std::nullopt});
            if(resp.has_value()) {
                res = std::get<commit_return_type>(resp.value());
            }
            result_callback(res);
        };
        const auto sent = m_client->call(commit_request{ticket_number}, cb);
        return sent;''')
Q('N06', LSC, '''        m_running = false;
        // Another thread may be waiting for a response, so only the destructor
        // destroys the client
        m_client->stop();''', '''        m_running = false;
        auto& cl = *m_client;
        cl.stop();''')
Q('N06', LSC, '''        while(m_running && !res.has_value()) {
            res = m_client->call(req, result_timeout);
            if(!res.has_value()) {
                m_log.warn("Shard request failed");
                if(m_running) {
                    std::this_thread::sleep_for(retry_delay);
                    result_timeout
                        = std::min(max_result_timeout, result_timeout * 2);
                }
            }
        }
        return res;''', '''        for(;;) {
            if(!m_running || res.has_value()) {
                break;
            }
            res = m_client->call(req, result_timeout);
            if(res.has_value()) {
                continue;
            }
            m_log.warn("Shard request failed");
            if(m_running) {
                std::this_thread::sleep_for(retry_delay);
                result_timeout
                    = std::min(max_result_timeout, result_timeout * 2);
            }
        }
        return res;''')
Q('N06', ATS, '''        auto req = request_type();
        auto popped = m_queue.pop(req);
        if(!popped) {
            return false;
        }
''', '''        request_type req;
        if(!m_queue.pop(req)) {
            return false;
        }
''')
Q('N06', S2S, '''                auto res = std::visit(
                    overloaded{[&](execute_request e_req) {
                                   return m_impl->execute_transaction(
                                       std::move(e_req),
                                       callback);
                               },
                               [&](validate_request v_req) {
                                   return m_impl->validate_transaction(
                                       std::move(v_req),
                                       callback);
                               }},
                    req);
                return res;''', '''                if(std::holds_alternative<execute_request>(req)) {
                    return m_impl->execute_transaction(
                        std::get<execute_request>(req),
                        callback);
                }
                return m_impl->validate_transaction(
                    std::get<validate_request>(req),
                    callback);''')
Q('N06', WTC, '''        auto data = request{cbdc::watchtower::best_block_height_request{}};
        auto pkt = make_shared_buffer(data);
        m_network.broadcast(pkt);

        std::shared_ptr<response> res;
        if(!m_res_q.pop(res)) {
            return nullptr;
        }
        return std::make_shared<best_block_height_response>(
            std::get<best_block_height_response>(res->payload()));''', '''        m_network.broadcast(make_shared_buffer(
            request{cbdc::watchtower::best_block_height_request{}}));

        auto res = std::shared_ptr<response>();
        if(m_res_q.pop(res)) {
            const auto& payload
                = std::get<best_block_height_response>(res->payload());
            return std::make_shared<best_block_height_response>(payload);
        }
        return nullptr;''')
Q('N06', 'parsec/runtime_locking_shard/controller.cpp', '''        auto& listener = *rpc_server;
        m_server =''', '''        auto* listener = rpc_server.get();
        m_server =''', ('parsec/runtime_locking_shard/controller.cpp', '''        if(!listener.init()) {''', '''        if(!listener->init()) {'''))
Q('N06', ARC, '''        auto resp = cbdc::from_buffer<response>(resp_pkt);
        if(!resp.has_value()) {
            m_logger->error("Invalid response packet");
            return std::nullopt;
        }

        return resp.value();''', '''        auto resp = cbdc::from_buffer<response>(resp_pkt);
        if(resp) {
            return *resp;
        }
        m_logger->error("Invalid response packet");
        return std::nullopt;''')

WL = 'uhs/transaction/wallet.cpp'
ACC = '''                ret.m_inputs.push_back(*utxo);
                ret.m_witness.emplace_back(sig_len, std::byte(0));
                total_amount += utxo->m_prevout_data.m_value;
                std::advance(utxo, 1);'''
B('L01', WL, '                m_seed_from -= seeded_inputs;\n                return std::nullopt;\n            }\n\n            for(size_t i = seeded_inputs; i < ret.m_inputs.size(); i++) {\n                const auto', '                return std::nullopt;\n            }\n\n            for(size_t i = seeded_inputs; i < ret.m_inputs.size(); i++) {\n                const auto')
B('L01', WL, 'm_seed_from -= seeded_inputs;\n                return std::nullopt;\n            }\n\n            for(size_t i = seeded_inputs; i < ret.m_inputs.size(); i++) {\n                auto& inp', 'm_seed_from -= input_count;\n                return std::nullopt;\n            }\n\n            for(size_t i = seeded_inputs; i < ret.m_inputs.size(); i++) {\n                auto& inp')
B('L01', WL, 'for(size_t i = seeded_inputs; i < ret.m_inputs.size(); i++) {\n                const auto del', 'for(size_t i = 0; i < ret.m_inputs.size(); i++) {\n                const auto del')
B('L01', WL, 'm_utxos_set.erase(*del_utxo);\n                m_spend_queue.pop_front();', 'm_spend_queue.pop_front();\n                m_utxos_set.erase(*m_spend_queue.begin());')
B('L01', WL, 'm_utxos_set.erase(*del_utxo);\n', '')
B('L01', WL, 'm_balance -= del_utxo->m_prevout_data.m_value;\n', '')
B('L01', WL, 'if(total_amount < amount) {\n                m_seed', 'if(total_amount == 0 && amount > 0) {\n                m_seed')
B('L01', WL, 'if(total_amount < amount) {\n                m_seed', 'if(total_amount <= amount) {\n                m_seed')
B('L01', WL, ACC, ACC.replace('utxo->m_prevout_data.m_value', 'm_seed_value'))
B('L01', WL, 'if(total_amount > amount) {\n            // Add the change output if we need to\n            transaction::output change_out;\n            change_out.m_value = total_amount - amount;\n            const auto pubkey = generate_key();\n            change_out.m_witness_program_commitment\n                = transaction::validation::get_p2pk_witness_commitment(pubkey);\n            ret.m_outputs.push_back(change_out);\n        }\n\n        if(sign_tx)', 'if(total_amount > amount + 1) {\n            transaction::output change_out;\n            change_out.m_value = total_amount - amount;\n            const auto pubkey = generate_key();\n            change_out.m_witness_program_commitment\n                = transaction::validation::get_p2pk_witness_commitment(pubkey);\n            ret.m_outputs.push_back(change_out);\n        }\n\n        if(sign_tx)')
B('L01', WL, 'const auto pubkey = generate_key();\n            change_out.m_witness_program_commitment\n                = transaction::validation::get_p2pk_witness_commitment(pubkey);', 'const auto pubkey = generate_key();\n            change_out.m_witness_program_commitment\n                = transaction::validation::get_p2pk_witness_commitment(payee);')
B('L01', WL, 'const uint64_t amount = output_count * value;', 'const uint64_t amount = (output_count - 1) * value;')
B('L01', WL, 'for(size_t i{0}; i < output_count; i++) {\n            ret.m_outputs.push_back(destination_out);', 'for(size_t i{1}; i < output_count; i++) {\n            ret.m_outputs.push_back(destination_out);')
B('L01', WL, 'if(i == output_count - 1) {\n                send_out.m_value = total_amount;\n            } else {\n                send_out.m_value = output_val;\n            }', 'send_out.m_value = output_val;')
B('L01', WL, 'if(output_val == 0 && output_count > 1) {', 'if(output_val == 0 && output_count > 2) {')
B('L01', WL, 'if((m_utxos_set.size() + m_seed_to - m_seed_from) < input_count) {', 'if((m_utxos_set.size() + m_seed_to - m_seed_from) + 1 < input_count) {')
B('L01', WL, 'if(added.second) {\n                m_balance += inp.m_prevout_data.m_value;\n                m_spend_queue.push_back(inp);\n            }', 'if(added.second) {\n                m_balance += inp.m_prevout_data.m_value;\n            }\n            m_spend_queue.push_back(inp);')
B('L01', WL, 'if(added.second) {\n                m_balance += inp.m_prevout_data.m_value;\n                m_spend_queue.push_back(inp);\n            }', 'm_balance += inp.m_prevout_data.m_value;\n            if(added.second) {\n                m_spend_queue.push_back(inp);\n            }')
B('L01', WL, 'return queued.m_prevout == inp.m_prevout;', 'return queued.m_prevout.m_tx_id == inp.m_prevout.m_tx_id;')
B('L01', WL, 'if(erased) {\n                m_balance', 'if(!erased) {\n                m_balance')
B('L01', WL, 'std::unique_lock<std::shared_mutex> lu(m_utxos_mut);\n        for(const auto& inp : credits)', 'std::shared_lock<std::shared_mutex> lu(m_utxos_mut);\n        for(const auto& inp : credits)')
B('L01', WL, 'std::shared_lock<std::shared_mutex> lg(m_utxos_mut);\n        // TODO: handle overflow', '// TODO: handle overflow')
B('L01', WL, 'balance += (m_seed_to - m_seed_from) * m_seed_value;', 'balance += m_seed_to * m_seed_value;')
B('L01', WL, 'tx.m_inputs[0].m_prevout.m_index = seed_idx;', 'tx.m_inputs[0].m_prevout.m_index = m_seed_from;')
B('L01', WL, 'if(!m_keys.empty()) {\n                return false;\n            }', '')
B('L01', WL, 'm_seed_from++;\n                seeded_inputs++;\n            }\n\n            auto utxo', 'seeded_inputs++;\n            }\n\n            auto utxo')
Q('L01', WL, 'for(size_t i = seeded_inputs; i < ret.m_inputs.size(); i++) {\n                const auto del_utxo = m_spend_queue.begin();\n                m_balance -= del_utxo->m_prevout_data.m_value;\n                m_utxos_set.erase(*del_utxo);\n                m_spend_queue.pop_front();', 'for(size_t i = seeded_inputs; i < ret.m_inputs.size(); i++) {\n                const auto& spent = m_spend_queue.front();\n                m_utxos_set.erase(spent);\n                m_balance -= spent.m_prevout_data.m_value;\n                m_spend_queue.pop_front();')
Q('L01', WL, '''            auto utxo = m_spend_queue.begin();
            while((total_amount < amount) && (utxo != m_spend_queue.end())) {
''' + ACC + '\n            }', '''            for(const auto& utxo : m_spend_queue) {
                if(total_amount >= amount) {
                    break;
                }
                total_amount += utxo.m_prevout_data.m_value;
                ret.m_inputs.push_back(utxo);
                ret.m_witness.emplace_back(sig_len, std::byte(0));
            }''')
Q('L01', WL, 'auto total_amount = maybe_tx.value().second;\n\n        transaction::output destination_out;\n        destination_out.m_value = amount;', 'const auto total_amount = maybe_tx->second;\n        auto destination_out = transaction::output();\n        destination_out.m_value = amount;')
Q('L01', WL, 'const auto erased = m_utxos_set.erase(inp) > 0;\n            if(erased) {', 'if(m_utxos_set.erase(inp) != 0) {')
Q('L01', WL, 'const auto added = m_utxos_set.insert(inp);\n            if(added.second) {\n                m_balance += inp.m_prevout_data.m_value;\n                m_spend_queue.push_back(inp);\n            }', 'if(!m_utxos_set.insert(inp).second) {\n                continue;\n            }\n            m_spend_queue.push_back(inp);\n            m_balance += inp.m_prevout_data.m_value;')
Q('L01', WL, 'if(i == output_count - 1) {\n                send_out.m_value = total_amount;\n            } else {\n                send_out.m_value = output_val;\n            }', 'send_out.m_value = i + 1 == output_count ? total_amount : output_val;')
Q('L01', WL, 'auto balance = m_balance;\n        if(m_seed_from != m_seed_to) {\n            balance += (m_seed_to - m_seed_from) * m_seed_value;\n        }\n        return balance;', 'return m_balance + (m_seed_to - m_seed_from) * m_seed_value;')

B('L02', WL, 'seckey = m_keys.at(pubkey);', 'seckey = m_keys.begin()->second;')
B('L02', WL, 'const auto sighash = transaction::tx_id(tx);\n        tx.m_witness.resize', 'const auto sighash = tx.m_inputs[0].m_prevout.m_tx_id;\n        tx.m_witness.resize')
B('L02', WL, 'key_ours = wit_prog != m_witness_programs.end();\n                if(key_ours) {', 'key_ours = true;\n                if(wit_prog != m_witness_programs.end()) {')
B('L02', WL, 'm_witness_programs.insert(\n                {transaction::validation::get_p2pk_witness_commitment(ret),\n                 ret});', '')
B('L02', WL, '            m_keys.insert({ret, seckey});\n', '            if(!m_keys.empty()) { m_keys.insert({ret, seckey}); }\n')
B('L02', WL, 'for(auto&& b : seckey) {\n            b = keygen(*m_random_source);\n        }', 'for(size_t i = 0; i < 16; i++) {\n            seckey[i] = keygen(*m_random_source);\n        }')
B('L02', WL, 'm_keys.size() - 1);', 'm_keys.size());')
B('L02', WL, 'std::unique_lock<std::shared_mutex> lg(m_keys_mut);\n            if(m_keys.size() > max_keys)', 'std::shared_lock<std::shared_mutex> lg(m_keys_mut);\n            if(m_keys.size() > max_keys)')
B('L02', WL, 'std::shared_lock<std::shared_mutex> sl(m_keys_mut);\n                const auto wit_prog', 'const auto wit_prog')
B('L02', WL, 'update_balance(new_utxos, tx.m_inputs);', 'update_balance(new_utxos, {});')
B('L02', WL, 'for(uint32_t i = 0; i < tx.m_outputs.size(); i++) {\n                const auto& out', 'for(uint32_t i = 1; i < tx.m_outputs.size(); i++) {\n                const auto& out')
B('L02', WL, 'transaction::input_from_output(tx, i, tx_id).value());', 'transaction::input_from_output(tx, static_cast<uint32_t>(new_utxos.size()), tx_id).value());')
B('L02', WL, 'if(send_tx.m_outputs[i].m_witness_program_commitment == wit_comm) {', 'if(send_tx.m_outputs[i].m_witness_program_commitment == wit_comm || send_tx.m_outputs.size() == 1) {')
B('L02', WL, 'if(send_tx.m_outputs[i].m_witness_program_commitment == wit_comm) {', 'if(send_tx.m_outputs[i].m_witness_program_commitment == wit_comm && ret.empty()) {')
B('L02', WL, '&sig[transaction::validation::p2pk_witness_prog_len],', '&sig[transaction::validation::p2pk_witness_prog_len - 1],')
B('L02', WL, 'tx.m_witness.resize(tx.m_inputs.size());', 'if(tx.m_witness.size() < tx.m_inputs.size()) { tx.m_witness.resize(1); }')
B('L02', WL, 'out.m_value = output_val;', 'out.m_value = i == 0 ? output_val : output_val + 1;')
Q('L02', WL, 'bool key_ours = false;\n            {\n                std::shared_lock<std::shared_mutex> sl(m_keys_mut);\n                const auto wit_prog = m_witness_programs.find(wit_commit);\n                key_ours = wit_prog != m_witness_programs.end();\n                if(key_ours) {', 'auto key_ours = false;\n            {\n                std::shared_lock<std::shared_mutex> sl(m_keys_mut);\n                const auto wit_prog = m_witness_programs.find(wit_commit);\n                if(wit_prog != m_witness_programs.end()) {\n                    key_ours = true;')
Q('L02', WL, '            const auto& out = tx.m_outputs[i];\n                if(m_witness_programs.find(out.m_witness_program_commitment)\n                   != m_witness_programs.end()) {', '            if(m_witness_programs.count(tx.m_outputs[i].m_witness_program_commitment) > 0) {')
Q('L02', WL, 'const auto& in_key = in.m_prevout_data.m_witness_program_commitment;\n        bool key_ours = false;\n        {\n            std::shared_lock<std::shared_mutex> sl(m_keys_mut);\n            const auto wit_prog = m_witness_programs.find(in_key);\n            key_ours = wit_prog != m_witness_programs.end();\n        }\n        return key_ours;', 'std::shared_lock<std::shared_mutex> sl(m_keys_mut);\n        return m_witness_programs.count(in.m_prevout_data.m_witness_program_commitment) != 0;')
Q('L02', WL, 'm_pubkeys.push_back(ret);\n            m_keys.insert({ret, seckey});', 'm_keys.emplace(ret, seckey);\n            m_pubkeys.push_back(ret);')

B('L03', WL, 'const auto tmp_file = wallet_file + ".tmp";', 'const auto tmp_file = wallet_file;')
B('L03', WL, '        wal_file.close();\n        if(!wal_file.good()) {\n            std::exit(EXIT_FAILURE);\n        }\n', '')
B('L03', WL, '        wal_file.close();\n        if(!wal_file.good()) {\n            std::exit(EXIT_FAILURE);\n        }\n        std::filesystem::rename(tmp_file, wallet_file);', '        std::filesystem::rename(tmp_file, wallet_file);\n        wal_file.close();\n        if(!wal_file.good()) {\n            std::exit(EXIT_FAILURE);\n        }\n')
B('L03', WL, 'm_balance += utxo.m_prevout_data.m_value;', '')
B('L03', WL, '                m_balance = 0;\n', '')
B('L03', WL, '                m_spend_queue.clear();\n', '')
B('L03', WL, 'm_spend_queue.push_back(utxo);', 'if(utxo.m_prevout_data.m_value > 0) { m_spend_queue.push_back(utxo); }')
B('L03', WL, '                    m_pubkeys.push_back(k.first);\n', '')
B('L03', WL, 'if(!deser) {\n                // Saving what could be read would lose the rest\n                std::exit(EXIT_FAILURE);\n            }', '')
B('L03', WL, 'std::shared_lock<std::shared_mutex> lk(m_keys_mut);\n            ser << m_keys;', 'ser << m_keys;')
B('L03', WL, '''        {
            std::shared_lock<std::shared_mutex> lk(m_keys_mut);
            ser << m_keys;
        }

        {
            std::shared_lock<std::shared_mutex> lu(m_utxos_mut);
            ser << m_utxos_set;
        }
''', '''        {
            std::shared_lock<std::shared_mutex> lu(m_utxos_mut);
            ser << m_utxos_set;
        }
        {
            std::shared_lock<std::shared_mutex> lk(m_keys_mut);
            ser << m_keys;
        }
''')
Q('L03', WL, '        wal_file.close();\n        if(!wal_file.good()) {', '        wal_file.close();\n        if(wal_file.fail()) {')
Q('L03', WL, 'm_utxos_set.clear();\n                m_spend_queue.clear();\n                m_balance = 0;', 'm_balance = 0;\n                m_spend_queue.clear();\n                m_utxos_set.clear();')
Q('L03', WL, 'if(wal_file.good()) {\n            auto deser', 'if(!wal_file.good()) { return; }\n        {\n            auto deser')

# ---------------------------------------------------------------- K: configuration
CFGC = 'util/common/config.cpp'
B('K01', CFGC, 'get_coordinator_raft_endpoint_key(i, j);', 'get_coordinator_raft_endpoint_key(j, i);')
B('K01', CFGC, 'opts.m_coordinator_raft_endpoints[i].emplace_back(*raft_ep);', 'opts.m_coordinator_endpoints[i].emplace_back(*raft_ep);')
B('K01', CFGC, '''        get_shard_key_prefix(ss, shard_id);
        ss << node_id << config_separator << raft_endpoint_postfix;''', '''        get_shard_key_prefix(ss, shard_id);
        ss << node_id << config_separator << endpoint_postfix;''')
B('K01', CFGC, 'ss << archiver_prefix << archiver_id << config_separator;', 'ss << archiver_prefix << config_separator << archiver_id;')
B('K01', CFGC, '''                    opts.m_locking_shard_readonly_endpoints[i].emplace_back(
                        *ro_ep);''', '''                    opts.m_locking_shard_readonly_endpoints[i].emplace_back(
                        *ep);''')
B('K01', CFGC, 'for(size_t j{0}; j < *node_count; j++) {\n                    const auto raft_ep_key = get_shard', 'for(size_t j{0}; j + 1 < *node_count; j++) {\n                    const auto raft_ep_key = get_shard')
B('K01', CFGC, '''        for(size_t i{0}; i < archiver_count; i++) {''', '''        for(size_t i{1}; i < archiver_count; i++) {''')
B('K01', CFGC, '''                if(opts.m_attestation_threshold == 0) {
                    continue;''', '''                if(opts.m_attestation_threshold <= 1) {
                    continue;''')
B('K01', CFGC, '''                if(opts.m_attestation_threshold == 0) {
                    continue;
                }
''', '')
B('K01', CFGC, 'opts.m_sentinel_private_keys[i] = key;', 'opts.m_sentinel_private_keys[opts.m_sentinel_private_keys.size()] = key;')
B('K01', CFGC, 'std::make_pair(static_cast<uint8_t>(*range_start),\n                                 static_cast<uint8_t>(*range_end));', 'std::make_pair(static_cast<uint8_t>(*range_start),\n                                 static_cast<uint8_t>(*range_end - 1));')
B('K01', CFGC, 'const auto range_end = cfg.get_ulong(end_key);', 'const auto range_end = cfg.get_ulong(start_key);')
B('K01', CFGC, '.value_or(opts.m_shard_completed_txs_cache_size);', '.value_or(0);')
B('K01', CFGC, 'opts.m_seed_to = cfg.get_ulong(seed_to).value_or(opts.m_seed_to);', 'opts.m_seed_to = cfg.get_ulong(seed_to).value_or(opts.m_seed_from);')
B('K01', CFGC, 'if(opts.m_seed_from != opts.m_seed_to) {\n            auto priv_str', 'if(opts.m_seed_from < opts.m_seed_to && opts.m_seed_from != 0) {\n            auto priv_str')
B('K01', CFGC, 'if(priv_str.value().size() != sizeof(privkey_t) * 2) {', 'if(priv_str.value().size() < sizeof(privkey_t) * 2) {')
B('K01', CFGC, 'cfg.get_ulong(stxo_cache_key).value_or(opts.m_stxo_cache_depth);', 'cfg.get_ulong(stxo_cache_key).value_or(opts.m_target_block_interval);')
B('K01', CFGC, 'opts.m_election_timeout_lower = static_cast<int32_t>(\n            cfg.get_ulong(election_timeout_lower_key)', 'opts.m_election_timeout_lower = static_cast<int32_t>(\n            cfg.get_ulong(election_timeout_upper_key)')
B('K01', CFGC, 'opts.m_input_count != 0 && opts.m_output_count != 0;', 'opts.m_input_count != 0 || opts.m_output_count != 0;')
B('K01', CFGC, '            opts.m_watchtower_internal_endpoints.push_back(\n                *watchtower_internal_ep);', '            opts.m_watchtower_internal_endpoints.push_back(\n                *watchtower_client_ep);')
B('K01', CFGC, '            if(!archiver_db) {\n                return "No db directory specified for archiver "\n                     + std::to_string(i) + " (" + archiver_db_str + ")";\n            }\n            opts.m_archiver_db_dirs.push_back(*archiver_db);', '            opts.m_archiver_db_dirs.push_back(archiver_db.value_or(""));')
B('K01', CFGC, 'opts.m_locking_shard_raft_endpoints.resize(shard_count);', 'opts.m_locking_shard_raft_endpoints.reserve(shard_count);')
B('K01', CFGC, 'if(!opts.m_twophase_mode) {\n                const auto shard_ep_key', 'if(opts.m_twophase_mode) {\n                const auto shard_ep_key')
B('K01', CFGC, 'if(*range_start > max_prefix || *range_end > max_prefix) {', 'if(*range_start > max_prefix && *range_end > max_prefix) {')
B('K01', 'util/common/config.hpp', 'static constexpr auto readonly = "readonly";', 'static constexpr auto readonly = "read_only";')
B('K01', 'util/common/config.hpp', 'election_timeout_lower_key\n        = "election_timeout_lower"', 'election_timeout_lower_key\n        = "election_timeout_upper"')
Q('K01', CFGC, '''        std::stringstream ss;
        get_archiver_key_prefix(ss, archiver_id);
        ss << db_postfix;
        return ss.str();''', '''        return std::string(archiver_prefix) + std::to_string(archiver_id)
             + config_separator + db_postfix;''')
Q('K01', CFGC, '''            if(!archiver_db) {
                return "No db directory specified for archiver "
                     + std::to_string(i) + " (" + archiver_db_str + ")";
            }
            opts.m_archiver_db_dirs.push_back(*archiver_db);''', '''            if(archiver_db.has_value()) {
                opts.m_archiver_db_dirs.emplace_back(archiver_db.value());
            } else {
                return "No db directory specified for archiver "
                     + std::to_string(i);
            }''')
Q('K01', CFGC, '''        for(size_t i{0}; i < archiver_count; i++) {''', '''        for(size_t i = 0; i != archiver_count; ++i) {''')
Q('K01', CFGC, '''        opts.m_batch_size
            = cfg.get_ulong(batch_size_key).value_or(opts.m_batch_size);''', '''        const auto batch = cfg.get_ulong(batch_size_key);
        if(batch.has_value()) {
            opts.m_batch_size = *batch;
        }''')
Q('K01', CFGC, '''            opts.m_archiver_endpoints.push_back(*archiver_ep);

            const auto archiver_loglevel_key = get_archiver_loglevel_key(i);
            const auto archiver_loglevel
                = cfg.get_loglevel(archiver_loglevel_key)
                      .value_or(defaults::log_level);
            opts.m_archiver_loglevels.push_back(archiver_loglevel);
''', '''            opts.m_archiver_loglevels.push_back(
                cfg.get_loglevel(get_archiver_loglevel_key(i))
                    .value_or(defaults::log_level));
            opts.m_archiver_endpoints.push_back(*archiver_ep);
''')
Q('K01', CFGC, '''            if(sentinel_private_key.has_value()) {''', '''            if(sentinel_private_key) {''')
Q('K01', CFGC, '''        opts.m_fixed_tx_mode
            = opts.m_input_count != 0 && opts.m_output_count != 0;''', '''        opts.m_fixed_tx_mode
            = !(opts.m_input_count == 0 || opts.m_output_count == 0);''')
Q('K01', CFGC, '''        get_sentinel_key_prefix(ss, sentinel_id);
        ss << private_key_postfix;''', '''        ss << sentinel_prefix << sentinel_id << "_" << "private_key";''')

B('K02', CFGC, 'opts.m_twophase_mode = cfg.get_ulong(two_phase_mode).value_or(0) != 0;', 'opts.m_twophase_mode = cfg.get_ulong(two_phase_mode).has_value();')
B('K02', CFGC, '''        err = read_archiver_options(opts, cfg);
        if(err.has_value()) {
            return err.value();
        }
''', '''        err = read_archiver_options(opts, cfg);
''')
B('K02', CFGC, '''        err = read_archiver_options(opts, cfg);
        if(err.has_value()) {
            return err.value();
        }
''', '')
B('K02', CFGC, '''            auto res = check_options(std::get<options>(opt));
            if(res) {''', '''            auto res = check_options(std::get<options>(opt));
            if(res && std::get<options>(opt).m_twophase_mode) {''')
B('K02', CFGC, '''               < opts.m_attestation_threshold) {
                return "The number''', '''               + 1 < opts.m_attestation_threshold) {
                return "The number''')
B('K02', CFGC, 'if(opts.m_seed_from > opts.m_seed_to) {', 'if(opts.m_seed_from > opts.m_seed_to + 1) {')
B('K02', CFGC, 'if(opts.m_seed_value == 0) {', 'if(opts.m_seed_value == 1) {')
B('K02', CFGC, 'if(opts.m_sentinel_public_keys.size() < opts.m_attestation_threshold) {', 'if(opts.m_twophase_mode && opts.m_sentinel_public_keys.size() < opts.m_attestation_threshold) {')
B('K02', CFGC, '''            if(opts.m_shard_endpoints.empty()
               && !opts.m_sentinel_endpoints.empty()) {''', '''            if(opts.m_shard_endpoints.empty()
               && opts.m_sentinel_endpoints.empty()) {''')
B('K02', CFGC, 'return val[0] >= range.first && val[0] <= range.second;', 'return val[0] >= range.first && val[0] < range.second;')
B('K02', CFGC, 'return val[0] >= range.first && val[0] <= range.second;', 'return val[1] >= range.first && val[1] <= range.second;')
B('K02', CFGC, 'auto our_range_end = our_range_start + seed_range_sz - 1;', 'auto our_range_end = our_range_start + seed_range_sz;')
B('K02', CFGC, 'if(opts.m_coordinator_endpoints.empty()) {', 'if(opts.m_coordinator_endpoints.empty() && opts.m_sentinel_endpoints.size() > 1) {')
Q('K02', CFGC, 'return val[0] >= range.first && val[0] <= range.second;', 'const auto b = val[0];\n        if(b < range.first) {\n            return false;\n        }\n        return !(b > range.second);')
Q('K02', CFGC, 'if(opts.m_seed_from > opts.m_seed_to) {', 'if(opts.m_seed_to < opts.m_seed_from) {')
Q('K02', CFGC, '''        auto our_range_end = our_range_start + seed_range_sz - 1;
        return {our_range_start, our_range_end};''', '''        return {our_range_start, (our_range_start + seed_range_sz) - 1};''')
Q('K02', CFGC, '''        read_raft_options(opts, cfg);

        read_loadgen_options(opts, cfg);
''', '''        read_loadgen_options(opts, cfg);

        read_raft_options(opts, cfg);
''')
Q('K02', CFGC, '''            if(res) {
                return *res;
            }''', '''            if(res.has_value()) {
                return res.value();
            }''')

B('K03', CFGC, 'auto it = m_options.find(key);', 'auto it = m_options.find(upper_key);')
B('K03', CFGC, 'return std::toupper(c);', 'return c == \'_\' ? \'-\' : std::toupper(c);')
B('K03', CFGC, '''        if(const auto* env_v = std::getenv(upper_key.c_str())) {''', '''        if(const auto* env_v = std::getenv(key.c_str())) {''')
B('K03', CFGC, '''        auto upper_key = key;
        std::transform(upper_key.begin(),
                       upper_key.end(),
                       upper_key.begin(),''', '''        if(m_options.find(key) != m_options.end()) {
            return m_options.at(key);
        }
        auto upper_key = key;
        std::transform(upper_key.begin(),
                       upper_key.end(),
                       upper_key.begin(),''')
B('K03', CFGC, "value.find('.') == std::string::npos", "value.find(',') == std::string::npos")
B('K03', CFGC, 'value.substr(1, value.size() - 2);', 'value.substr(1, value.size() - 1);')
B('K03', CFGC, "value[0] != '\\\"' && value[value.size() - 1] != '\\\"'", "value[0] != '\\\"' || value[value.size() - 1] != '\\\"'")
B('K03', CFGC, 'm_options.emplace(key, parse_value(value));', 'm_options[key] = parse_value(value);')
B('K03', CFGC, 'm_options.emplace(key, parse_value(value));', 'm_options.emplace(value, parse_value(key));')
B('K03', CFGC, "if(std::getline(line_stream, value)) {", "if(std::getline(line_stream, value, '=')) {")
B('K03', CFGC, 'const auto val_str = get_string(key);\n        if(!val_str.has_value()) {\n            return std::nullopt;\n        }\n        return logging', 'const auto val_str = get_string(key);\n        if(!val_str.has_value()) {\n            return logging::log_level::warn;\n        }\n        return logging')
B('K03', 'util/common/config.hpp', 'if(val != nullptr) {\n                    return *val;\n                }', 'return val != nullptr ? *val : T{};')
B('K03', 'util/common/logging.cpp', 'if(level == "ERROR") {\n            return log_level::error;', 'if(level == "ERROR") {\n            return log_level::fatal;')
B('K03', 'util/common/hash.cpp', 'ret[i / 2] = static_cast<uint8_t>(v);', 'ret[ret.size() - 1 - i / 2] = static_cast<uint8_t>(v);')
B('K03', 'util/common/hash.cpp', ' && i / 2 < ret.size()', ' && i / 2 <= ret.size()')
B('K03', 'util/common/hash.cpp', "std::setfill('0')", "std::setfill(' ')")
B('K03', 'util/common/buffer.cpp', 'ret << std::setw(2) << static_cast<int>(byte);', 'ret << static_cast<int>(byte);')
B('K03', 'util/common/buffer.cpp', "((hex.size() % 2) != 0) || ", "")
B('K03', 'util/common/buffer.cpp', "ABCDEF", "ABCDEFx")
B('K03', 'util/common/buffer.cpp', 's << std::hex << hex.substr(i, 2);', 's << std::hex << hex.substr(i, 1);')
B('K03', 'util/common/buffer.cpp', '''        res.append(prefix);
        res.append(to_hex());''', '''        res.append(to_hex());
        res.append(prefix);''')
Q('K03', CFGC, '''        std::transform(upper_key.begin(),
                       upper_key.end(),
                       upper_key.begin(),
                       [](unsigned char c) {
                           return std::toupper(c);
                       });''', '''        for(auto& c : upper_key) {
            c = static_cast<char>(std::toupper(static_cast<unsigned char>(c)));
        }''')
Q('K03', CFGC, '''        auto it = m_options.find(key);
        if(it != m_options.end()) {
            return it->second;
        }

        return std::nullopt;''', '''        if(m_options.count(key) == 0) {
            return std::nullopt;
        }
        return m_options.at(key);''')
Q('K03', CFGC, '''            auto value = std::string(env_v);
            return parse_value(value);''', '''            return parse_value(std::string(env_v));''')
Q('K03', CFGC, '''            if(std::getline(line_stream, key, '=')) {
                std::string value;
                if(std::getline(line_stream, value)) {
                    m_options.emplace(key, parse_value(value));
                }
            }''', '''            if(!std::getline(line_stream, key, '=')) {
                continue;
            }
            std::string value;
            if(!std::getline(line_stream, value)) {
                continue;
            }
            m_options.emplace(key, parse_value(value));''')
Q('K03', CFGC, '''            if(value.find('.') == std::string::npos) {
                const auto as_int = static_cast<size_t>(std::stoull(value));
                return as_int;
            }
            const auto as_dbl = std::stod(value);
            return as_dbl;''', '''            if(value.find('.') != std::string::npos) {
                return std::stod(value);
            }
            return static_cast<size_t>(std::stoull(value));''')
Q('K03', 'util/common/hash.cpp', '''        for(const auto& byte : val) {
            ret << std::setw(2) << static_cast<int>(byte);
        }''', '''        for(const auto& byte : val) {
            const auto as_int = static_cast<int>(byte);
            ret << std::setw(2);
            ret << as_int;
        }''')

# ------------------------------------------------------------ starting nodes
WTD = 'uhs/atomizer/watchtower/watchtowerd.cpp'
LSD = 'uhs/twophase/locking_shard/locking_shardd.cpp'
RLD = 'parsec/runtime_locking_shard/runtime_locking_shardd.cpp'
S2D = 'uhs/twophase/sentinel_2pc/sentineld_2pc.cpp'
AGD = 'parsec/agent/agentd.cpp'
LSC = 'uhs/twophase/locking_shard/controller.cpp'
COC = 'uhs/twophase/coordinator/controller.cpp'
B('K04', WTD, 'opts.m_watchtower_client_endpoints.size() <= watchtower_id', 'opts.m_watchtower_client_endpoints.size() < watchtower_id')
B('K04', WTD, 'opts.m_watchtower_client_endpoints.size() <= watchtower_id', 'opts.m_shard_endpoints.size() <= watchtower_id')
B('K04', WTD, '''    if(!ctl.init()) {
        return -1;
    }
''', '''    if(!ctl.init()) {
        return 0;
    }
''')
B('K04', LSD, 'auto node_id = std::stoull(args[3]);', 'auto node_id = std::stoull(args[2]);')
B('K04', LSD, 'cfg.m_locking_shard_endpoints[shard_id].size() <= node_id', 'cfg.m_locking_shard_endpoints[node_id].size() <= shard_id')
B('K04', LSD, 'cfg.m_locking_shard_endpoints[shard_id].size() <= node_id', 'cfg.m_locking_shard_endpoints[0].size() <= node_id')
B('K04', LSD, 'controller(shard_id, node_id, cfg, logger)', 'controller(node_id, shard_id, cfg, logger)')
B('K04', LSD, 'cfg.m_shard_loglevels[shard_id]', 'cfg.m_shard_loglevels[node_id]')
B('K04', S2D, '        running = false;', '        running = true;')
B('K04', S2D, '    while(running) {', '    if(running) {')
B('K04', RLD, '''    if(!cfg->m_node_id.has_value()
       || cfg''', '''    if(cfg->m_node_id.has_value()
       && cfg''')
B('K04', RLD, 'new_ep.second++;', 'new_ep.second += 2;')
B('K04', RLD, '''    for(auto& e : cfg->m_shard_endpoints[cfg->m_component_id]) {
        auto new_ep''', '''    for(auto& e : cfg->m_shard_endpoints[*cfg->m_node_id]) {
        auto new_ep''')
B('K04', RLD, 'cfg->m_shard_endpoints[cfg->m_component_id][*cfg->m_node_id],', 'cfg->m_shard_endpoints[*cfg->m_node_id][cfg->m_component_id],')
B('K04', AGD, '!res.has_value()', 'res.has_value()')
B('K04', AGD, '''    if(!recover_res) {
        log->error("Error during broker recovery");
        return 1;
    }''', '''    if(!recover_res) {
        log->error("Error during broker recovery");
    }''')
B('K04', AGD, '''        log->error("Timeout waiting for broker recovery");
        return 1;''', '''        log->error("Timeout waiting for broker recovery");
        recover_delay.count();''')
B('K04', AGD, '''        if(!client->init()) {
            log->error("Error connecting to shard");
            return 1;
        }''', '''        if(!client->init()) {
            log->error("Error connecting to shard");
            continue;
        }''')
B('K04', AGD, 'if(cfg->m_component_id == 0) {', 'if(cfg->m_component_id == 1) {')
B('K04', AGD, 'cfg->m_agent_endpoints[cfg->m_component_id]);', 'cfg->m_agent_endpoints[0]);')
B('K04', AGD, 'cfg->m_agent_endpoints.size() <= cfg->m_component_id', 'cfg->m_agent_endpoints.size() < cfg->m_component_id')
B('K04', AGD, '''broker::impl>(cfg->m_component_id,''', '''broker::impl>(0,''')
B('K04', LSC, 'm_opts.m_locking_shard_raft_endpoints[m_shard_id],', 'm_opts.m_locking_shard_raft_endpoints[0],')
B('K04', LSC, 'm_opts.m_locking_shard_endpoints[m_shard_id][m_node_id]', 'm_opts.m_locking_shard_endpoints[m_shard_id][0]')
B('K04', LSC, 'm_opts.m_locking_shard_readonly_endpoints[m_shard_id][m_node_id]', 'm_opts.m_locking_shard_readonly_endpoints[m_node_id][m_shard_id]')
B('K04', LSC, 'm_node_id\n           >= m_opts', 'm_node_id\n           > m_opts')
B('K04', LSC, '            m_server.reset();', '            ;')
B('K04', LSC, 'm_opts.m_shard_ranges[m_shard_id],\n            m_logger', 'm_opts.m_shard_ranges[m_node_id],\n            m_logger')
B('K04', COC, 'if(m_coordinator_id >= m_opts.m_coordinator_raft_endpoints.size()) {', 'if(m_coordinator_id > m_opts.m_coordinator_raft_endpoints.size()) {')
B('K04', COC, 'm_opts.m_coordinator_raft_endpoints[m_coordinator_id],', 'm_opts.m_coordinator_endpoints[m_coordinator_id],')
Q('K04', WTD, 'if(opts.m_watchtower_client_endpoints.size() <= watchtower_id) {', 'if(!(watchtower_id < opts.m_watchtower_client_endpoints.size())) {')
Q('K04', WTD, '''    while(running) {
        std::this_thread::sleep_for(std::chrono::seconds(1));
    };''', '''    for(;;) {
        if(!running) {
            break;
        }
        std::this_thread::sleep_for(std::chrono::seconds(1));
    }''')
Q('K04', LSD, '''    if(cfg.m_locking_shard_endpoints[shard_id].size() <= node_id) {''', '''    const auto& cluster = cfg.m_locking_shard_endpoints[shard_id];
    if(cluster.size() <= node_id) {''')
Q('K04', RLD, '''        auto new_ep = e;
        new_ep.second++;
        raft_endpoints.push_back(new_ep);''', '''        raft_endpoints.emplace_back(
            e.first,
            static_cast<unsigned short>(e.second + 1));''')
Q('K04', AGD, '''    auto wait_res = recover_fut.wait_for(recover_delay);
    if(wait_res == std::future_status::timeout) {''', '''    if(recover_fut.wait_for(recover_delay) == std::future_status::timeout) {''')
Q('K04', AGD, '''    auto recover_res = recover_fut.get();
    if(!recover_res) {''', '''    if(!recover_fut.get()) {''')
Q('K04', LSC, '''        if(m_shard_id >= m_opts.m_locking_shard_raft_endpoints.size()) {''', '''        const auto& clusters = m_opts.m_locking_shard_raft_endpoints;
        if(clusters.size() <= m_shard_id) {''')
Q('K04', COC, '''        m_handler_endpoint
            = m_opts.m_coordinator_endpoints[m_coordinator_id][m_node_id];
''', '''        const auto& mine = m_opts.m_coordinator_endpoints[m_coordinator_id];
        m_handler_endpoint = mine[m_node_id];
''')

CLI = 'uhs/client/client.cpp'
TPC = 'uhs/client/twophase_client.cpp'
ATC = 'uhs/client/atomizer_client.cpp'
B('L04', CLI, '            m_pending_spend.insert({in.hash(), in});', '            m_pending_spend.insert({in.m_prevout.m_tx_id, in});')
B('L04', CLI, '            m_pending_spend.insert({in.hash(), in});', '            m_pending_spend.insert({in.hash(), in});\n            break;')
B('L04', CLI, '            m_pending_spend.insert({in.hash(), in});\n        }\n\n        save();', '            m_pending_spend.insert({in.hash(), in});\n        }')
B('L04', CLI, '        register_pending_tx(tx.value());\n\n        return tx;', '        return tx;')
B('L04', CLI, 'auto tx = m_wallet.fan(count, value, payee, true);', 'auto tx = m_wallet.fan(count, value, payee, false);')
B('L04', CLI, '        register_pending_tx(tx.value());\n\n        auto res', '        auto res')
B('L04', CLI, 'return std::make_pair(tx.value(), res.value());', 'return std::make_pair(tx.value(), std::nullopt);')
B('L04', CLI, '        import_transaction(tx);\n\n        auto res = m_sentinel_client.execute_transaction(tx);', '        auto res = m_sentinel_client.execute_transaction(tx);\n        import_transaction(tx);\n')
B('L04', CLI, 'sentinel::tx_status::confirmed) {', 'sentinel::tx_status::pending) {')
B('L04', CLI, 'res.value().m_tx_status == sentinel::tx_status::confirmed', 'res.value().m_tx_status != sentinel::tx_status::static_invalid')
B('L04', CLI, '            confirm_transaction(transaction::tx_id(tx));\n', '')
B('L04', CLI, '        if(m_wallet.is_spendable(in)) {', '        if(!m_pending_inputs.empty() || m_wallet.is_spendable(in)) {')
B('L04', CLI, '''            m_pending_inputs.insert({in.m_prevout.m_tx_id, in});
            save();''', '''            m_pending_inputs.insert({in.m_prevout.m_tx_id, in});''')
B('L04', CLI, 'm_pending_inputs.insert({in.m_prevout.m_tx_id, in});', 'm_pending_inputs.insert({in.hash(), in});')
B('L04', CLI, '''        auto addr = m_wallet.generate_key();
        save();''', '''        auto addr = m_wallet.generate_key();
        save_client_state();''')
B('L04', CLI, '        m_pending_txs.insert({transaction::tx_id(tx), tx});\n        save();', '        m_pending_txs.insert({transaction::tx_id(tx), tx});')
B('L04', CLI, '                if(in == inp) {', '                if(in.m_prevout == inp.m_prevout && it.second.m_inputs.size() > 1) {')
B('L04', CLI, '''                if(in == inp) {
                    return true;
                }
            }
        }
        return false;''', '''                return in == inp;
            }
        }
        return false;''')
B('L04', CLI, '''            auto tx = it->second;
            m_pending_txs.erase(it);
''', '''            auto tx = it->second;
''')
B('L04', CLI, '                    if(!pending) {', '                    if(!pending || tx.m_inputs.size() > 1) {')
B('L04', CLI, '''                        m_pending_spend.erase(ps_it);
                        m_wallet.confirm_inputs({i});''', '''                        m_pending_spend.erase(ps_it);''')
B('L04', CLI, '''                        m_pending_spend.erase(ps_it);
                        m_wallet.confirm_inputs({i});''', '''                        m_wallet.confirm_inputs({i});''')
B('L04', CLI, '            m_wallet.confirm_transaction(it->second);\n', '')
B('L04', CLI, '''            m_pending_txs.erase(it);
            success = true;
        }

        const auto pi_it''', '''            m_pending_txs.erase(it);
            success = true;
            save();
            return success;
        }

        const auto pi_it''')
B('L04', CLI, '            m_wallet.confirm_inputs({pi_it->second});\n', '')
B('L04', CLI, '            m_pending_inputs.erase(pi_it);\n            success = true;\n', '            m_pending_inputs.erase(pi_it);\n')
B('L04', CLI, '            m_pending_inputs.erase(pi_it);\n', '')
B('L04', CLI, '''            m_pending_inputs.erase(pi_it);
            success = true;
        }

        save();''', '''            m_pending_inputs.erase(pi_it);
            success = true;
        }

        save_client_state();''')
B('L04', CLI, '>> m_pending_txs >> m_pending_inputs\n                 >> m_pending_spend', '>> m_pending_txs >> m_pending_inputs')
B('L04', CLI, '>> m_pending_txs >> m_pending_inputs\n                 >> m_pending_spend', '>> m_pending_txs >> m_pending_spend >> m_pending_inputs', (CLI, '', ''))
B('L04', CLI, '                m_logger->fatal("Error deserializing client file");', '                m_logger->error("Error deserializing client file");')
B('L04', CLI, '            m_logger->fatal("Failed to write client data");', '            m_logger->warn("Failed to write client data");')
B('L04', CLI, '        save_client_state();\n        m_wallet.save(m_wallet_file);', '        save_client_state();')
B('L04', CLI, '            m_wallet.load(m_wallet_file);', '            m_wallet.load(m_client_file);')
B('L04', CLI, '        load_client_state();\n\n', '')
B('L04', CLI, '        import_transaction(mint_tx);\n\n', '')
B('L04', CLI, 'if(data.size() != pubkey.size() + 1', 'if(data.size() <= pubkey.size()')
B('L04', CLI, '        data.erase(data.begin());\n', '')
Q('L04', CLI, 'm_pending_txs.insert({transaction::tx_id(tx), tx});', 'const auto id = transaction::tx_id(tx);\n        m_pending_txs.emplace(id, tx);')
Q('L04', CLI, '''            m_wallet.confirm_transaction(it->second);
            for(auto& i : it->second.m_inputs) {
                const auto ps_it = m_pending_spend.find(i.hash());
                if(ps_it != m_pending_spend.end()) {
                    m_pending_spend.erase(ps_it);
                }
            }''', '''            const auto& tx = it->second;
            m_wallet.confirm_transaction(tx);
            for(size_t i = 0; i < tx.m_inputs.size(); i++) {
                m_pending_spend.erase(tx.m_inputs[i].hash());
            }''')
Q('L04', CLI, '''                    auto pending = check_pending(i);
                    if(!pending) {
                        m_pending_spend.erase(ps_it);
                        m_wallet.confirm_inputs({i});
                    }''', '''                    if(check_pending(i)) {
                        continue;
                    }
                    m_wallet.confirm_inputs({i});
                    m_pending_spend.erase(ps_it);''')
Q('L04', CLI, '''        if(m_wallet.is_spendable(in)) {
            m_pending_inputs.insert({in.m_prevout.m_tx_id, in});
            save();
        } else {
            m_logger->warn("Ignoring non-spendable input");
        }''', '''        if(!m_wallet.is_spendable(in)) {
            m_logger->warn("Ignoring non-spendable input");
            return;
        }
        m_pending_inputs.insert({in.m_prevout.m_tx_id, in});
        save();''')
Q('L04', CLI, '''        if(!res.has_value()) {
            m_logger->error("Failed to send transaction to sentinel.");
            return std::nullopt;
        }
''', '''        if(!res) {
            m_logger->error("Failed to send transaction to sentinel.");
            return res;
        }
''')
B('L05', TPC, 'if(!m_coordinator_client.init()) {', 'if(m_coordinator_client.init()) {\n            return true;\n        } else {')
B('L05', TPC, '''        for(const auto& [tx_id, inp] : pending_inputs()) {
            txids.insert(tx_id);
        }
''', '')
B('L05', TPC, '''        for(const auto& [tx_id, inp] : pending_inputs()) {
            txids.insert(tx_id);''', '''        for(const auto& [tx_id, inp] : pending_inputs()) {
            txids.insert(inp.hash());''')
B('L05', TPC, 'm_logger->error("Timeout waiting for shard response");\n                success = false;', 'm_logger->error("Timeout waiting for shard response");')
B('L05', TPC, 'm_logger->error("Timeout waiting for shard response");\n                success = false;', 'm_logger->error("Timeout waiting for shard response");\n                return false;')
B('L05', TPC, '                if(res.value()) {\n', '                if(res.has_value()) {\n')
B('L05', TPC, '                    m_logger->info(to_string(tx_id), "not found");\n', '                    m_logger->info(to_string(tx_id), "not found");\n                    abandon_transaction(tx_id);\n                    success = false;\n')
B('L05', TPC, '                    confirm_transaction(tx_id);\n                } else', '                    abandon_transaction(tx_id);\n                } else')
B('L05', TPC, 'return m_shard_status_client.check_unspent(uhs_id);', 'return m_shard_status_client.check_tx_id(uhs_id);')
B('L05', TPC, 'i < m_opts.m_attestation_threshold', 'i + 1 < m_opts.m_attestation_threshold')
B('L05', TPC, 'm_opts.m_sentinel_private_keys[i]', 'm_opts.m_sentinel_private_keys[0]')
B('L05', TPC, '            ctx.m_attestations.insert(att);\n', '')
B('L05', TPC, '''                    m_logger->error("Coordinator rejected transaction");
                    return;''', '''                    m_logger->error("Coordinator rejected transaction");''')
B('L05', TPC, '''                        "Coordinator error processing transaction");
                    return;''', '''                        "Coordinator error processing transaction");
                    done->set_value();
                    return;''')
B('L05', TPC, '                confirm_transaction(tx_id);\n                m_logger', '                m_logger')
B('L05', TPC, '''            m_logger->error("Timed out waiting for mint response");
            return false;''', '''            m_logger->error("Timed out waiting for mint response");''')
B('L05', ATC, '            it->second.insert(it->second.end(),\n                              ctx.m_inputs.begin(),\n                              ctx.m_inputs.end());\n', '')
B('L05', ATC, 'tus.insert({tx_id, {in.hash()}});', 'tus.insert({in.hash(), {tx_id}});')
B('L05', ATC, '''            m_logger->error("No response from the watchtower");
            return false;
        }

        bool success{true};''', '''            m_logger->error("No response from the watchtower");
        }

        bool success{true};''')
B('L05', ATC, '                confirmed = true;\n                break;', '                confirmed = true;\n                break;', (ATC, '''                                   static_cast<uint32_t>(s.status()));
                    continue;''', '''                                   static_cast<uint32_t>(s.status()));
                    break;'''))
B('L05', ATC, '(s.status() != cbdc::watchtower::search_status::unspent)\n                   &&', '(s.status() != cbdc::watchtower::search_status::invalid_input)\n                   &&')
B('L05', ATC, 'if(!confirmed || !confirm_transaction(tx_id)) {\n                success = false;', 'if(!confirmed || !confirm_transaction(tx_id)) {\n                return false;')
B('L05', ATC, 'if(!confirmed || !confirm_transaction(tx_id)) {', 'if(!confirm_transaction(tx_id)) {')
B('L05', ATC, 'msg.m_block_height = best_height->height();', 'msg.m_block_height = best_height->height() + 1;')
B('L05', ATC, '        msg.m_tx = std::move(ctx);\n', '')
B('L05', ATC, 'return m_atomizer_network.send_to_one(atomizer::request{msg});', 'm_atomizer_network.send_to_one(atomizer::request{msg});\n        return true;')
B('L05', ATC, 'cluster_connect(m_opts.m_atomizer_endpoints)', 'cluster_connect(m_opts.m_archiver_endpoints)')
Q('L05', TPC, '''            if(!res.has_value()) {
                m_logger->error("Timeout waiting for shard response");
                success = false;
            } else {
                if(res.value()) {
                    m_logger->info(to_string(tx_id), "confirmed");
                    confirm_transaction(tx_id);
                } else {
                    m_logger->info(to_string(tx_id), "not found");
                }
            }''', '''            if(!res) {
                m_logger->error("Timeout waiting for shard response");
                success = false;
                continue;
            }
            if(!*res) {
                m_logger->info(to_string(tx_id), "not found");
                continue;
            }
            m_logger->info(to_string(tx_id), "confirmed");
            confirm_transaction(tx_id);''')
Q('L05', TPC, '                if(!success.has_value()) {\n                    m_logger->error(\n                        "Coordinator error processing transaction");\n                    return;\n                }\n                if(!success.value()) {', '                if(!success.value_or(false)) {')
Q('L05', ATC, '''            bool confirmed{false};
            for(const auto& s : uhs_states) {''', '''            auto confirmed = false;
            for(auto j = uhs_states.begin(); j != uhs_states.end(); ++j) {
                const auto& s = *j;''')
Q('L05', ATC, '        return m_atomizer_network.send_to_one(atomizer::request{msg});', '        const auto sent = m_atomizer_network.send_to_one(atomizer::request{msg});\n        if(!sent) {\n            m_logger->error("not sent");\n            return false;\n        }\n        return true;')

PUT = 'parsec/util.cpp'
B('P13', PUT, 'runtime_locking_shard::lock_type::write,', 'runtime_locking_shard::lock_type::read,')
B('P13', PUT, 'runtime_locking_shard::lock_type::read,', 'runtime_locking_shard::lock_type::write,')
B('P13', PUT, '''                        if(commit_ret.has_value()) {
                                result_callback(false);
                                return;
                            }''', '', )
B('P13', PUT, '''                            if(commit_ret.has_value()) {
                                result_callback(false);
                                return;
                            }
''', '''                            result_callback(!commit_ret.has_value());
''')
B('P13', PUT, '{{key, value}},', '{{value, key}},')
B('P13', PUT, 'result_callback(!finish_ret.has_value());', 'result_callback(true);')
B('P13', PUT, '''                            if(!finish_res) {
                                result_callback(false);
                                return;
                            }
''', '')
B('P13', PUT, '''                    if(!commit_res) {
                        result_callback(false);
                        return;
                    }
''', '')
B('P13', PUT, '''            if(!lock_res) {
                result_callback(false);
                return;
            }
''', '')
B('P13', PUT, '                    res_promise->set_value(try_lock_res);\n                    result_callback(try_lock_res);\n', '                    result_callback(try_lock_res);\n')
B('P13', PUT, '''                        res_promise->set_value(
                            cbdc::parsec::broker::interface::error_code::
                                shard_unreachable);
                        result_callback(cbdc''', '''                        result_callback(cbdc''')
B('P13', PUT, '''                res_promise->set_value(
                    cbdc::parsec::broker::interface::error_code::
                        ticket_number_assignment);
                result_callback(cbdc''', '''                result_callback(cbdc''')
B('P13', PUT, '''                        auto finish_res
                            = broker->finish(ticket_number, finish_cb);
                        if(!finish_res) {
                            result_callback(cbdc::parsec::broker::interface::
                                                error_code::finish_error);
                            return;
                        }
''', '')
B('P13', PUT, '''                            result_callback(
                                std::get<cbdc::parsec::runtime_locking_shard::
                                             shard_error>(commit_ret.value()));
                            return;''', '''                            result_callback(
                                std::get<cbdc::parsec::runtime_locking_shard::
                                             shard_error>(commit_ret.value()));''')
B('P13', PUT, '''        return begin_res;''', '''        return true || begin_res;''')
Q('P13', PUT, '''            auto ticket_number
                = std::get<cbdc::parsec::ticket_machine::ticket_number_type>(
                    begin_ret);
            auto lock_res = broker->try_lock(
                ticket_number,
                key,
                cbdc::parsec::runtime_locking_shard::lock_type::write,''', '''            const auto* tn
                = std::get_if<cbdc::parsec::ticket_machine::ticket_number_type>(
                    &begin_ret);
            const auto ticket_number = *tn;
            auto lock_res = broker->try_lock(
                ticket_number,
                key,
                cbdc::parsec::runtime_locking_shard::lock_type::write,''')
Q('P13', PUT, '''                                [=](auto finish_ret) {
                                    result_callback(!finish_ret.has_value());
                                });''', '''                                [=](auto finish_ret) {
                                    const auto done = !finish_ret.has_value();
                                    result_callback(done);
                                });''')
Q('P13', PUT, '''                    auto commit_res = broker->commit(
                        ticket_number,
                        runtime_locking_shard::state_update_type(),
                        commit_cb);
''', '''                    const auto nothing
                        = runtime_locking_shard::state_update_type();
                    auto commit_res
                        = broker->commit(ticket_number, nothing, commit_cb);
''')
B('K05', PUT, 'pos_start = pos_end + delim.size();', 'pos_start = pos_end + 1;')
B('K05', PUT, 's.find(delim, pos_start)) !=', 's.find(delim)) !=')
B('K05', PUT, 's.substr(pos_start, pos_end - pos_start)', 's.substr(pos_start, pos_end)')
B('K05', PUT, '        ret.emplace_back(s.substr(pos_start));\n', '')
B('K05', PUT, 'for(size_t i = 1; i < args.size(); i++) {', 'for(size_t i = 2; i < args.size(); i++) {')
B('K05', PUT, ' || !arr[0].empty() || arr[1].empty()', ' || arr[1].empty()')
B('K05', PUT, 'if(elems.size() != 2) {', 'if(elems.size() < 2) {')
B('K05', PUT, 'opts.emplace(elems[0], elems[1]);', 'opts.emplace(elems[0], arr[1]);')
B('K05', PUT, '            auto ep_key = component_name + std::to_string(i) + "_endpoint";', '            auto ep_key = component_name + std::to_string(0) + "_endpoint";')
B('K05', PUT, '''            it = opts.find(ep_key);
            if(it == opts.end()) {
                return std::nullopt;
            }
            auto ep''', '''            it = opts.find(ep_key);
            if(it == opts.end()) {
                break;
            }
            auto ep''')
B('K05', PUT, 'auto eps = read_endpoints(opts, node_name);', 'auto eps = read_endpoints(opts, component_name);')
B('K05', PUT, 'cfg.m_shard_endpoints = shard_endpoints.value();\n', '')
B('K05', PUT, 'read_endpoints(opts.value(), "agent")', 'read_endpoints(opts.value(), "ticket_machine")')
B('K05', PUT, 'cfg.m_node_id = std::stoull(it->second);', 'cfg.m_component_id = std::stoull(it->second);')
B('K05', PUT, 'constexpr auto component_id_key = "component_id";', 'constexpr auto component_id_key = "node_id";')
B('K05', PUT, 'cfg.m_runner_type = runner_type::lua;\n            } else {\n                return std::nullopt;\n            }', 'cfg.m_runner_type = runner_type::lua;\n            }')
B('K05', PUT, 'cfg.m_load_type = load_type::erc20;', 'cfg.m_load_type = load_type::transfer;')
B('K05', PUT, 'default_loadgen_accounts = 1000', 'default_loadgen_accounts = 100')
B('K05', PUT, '            if(maybe_loglevel.has_value()) {\n                cfg.m_loglevel = maybe_loglevel.value();\n            }', '            if(!maybe_loglevel.has_value()) {\n                return std::nullopt;\n            }\n            cfg.m_loglevel = maybe_loglevel.value();')
Q('K05', PUT, '''        auto ticket_machine_endpoints
            = read_endpoints(opts.value(), "ticket_machine");
        if(!ticket_machine_endpoints.has_value()) {
            return std::nullopt;
        }
        cfg.m_ticket_machine_endpoints = ticket_machine_endpoints.value();
''', '''        if(const auto eps = read_endpoints(*opts, "ticket_machine")) {
            cfg.m_ticket_machine_endpoints = *eps;
        } else {
            return std::nullopt;
        }
''')
Q('K05', PUT, '''        size_t pos_end{};
        std::vector<std::string> ret;

        while((pos_end = s.find(delim, pos_start)) != std::string::npos) {
            auto token = s.substr(pos_start, pos_end - pos_start);
            pos_start = pos_end + delim.size();
            ret.emplace_back(token);
        }
''', '''        auto ret = std::vector<std::string>();

        while(true) {
            const auto pos_end = s.find(delim, pos_start);
            if(pos_end == std::string::npos) {
                break;
            }
            ret.push_back(s.substr(pos_start, pos_end - pos_start));
            pos_start = pos_end + delim.size();
        }
''')
Q('K05', PUT, '''        auto count = std::stoull(it->second);

        for(size_t i = 0; i < count; i++) {
            auto ep_key''', '''        const auto count = std::stoull(it->second);
        ret.reserve(count);

        for(size_t i = 0; i != count; ++i) {
            auto ep_key''')

# ------------------------------------------------------------------ P14
LUA = 'parsec/agent/runners/lua/impl.cpp'
B('P14', LUA, '''                                         "b");''', '''                                         "bt");''')
B('P14', LUA, '''                                         m_function.size(),''', '''                                         m_param.size(),''')
B('P14', LUA, '''        lua_register(m_state.get(), "check_sig", &lua_runner::check_sig);

''', '')
B('P14', LUA, '''            m_result_callback(error_code::function_load);
            return true;''', '''            m_result_callback(error_code::function_load);''')
B('P14', LUA, '''            m_log->error("Failed to push function params");
            m_result_callback(error_code::internal_error);''', '''            m_log->error("Failed to push function params");''')
B('P14', LUA, '''        schedule_contract();

        return true;''', '''        return true;''')
B('P14', LUA, '''        if(n_results != 1) {
            m_log->error("Contract returned''', '''        if(n_results < 1) {
            m_log->error("Contract returned''')
B('P14', LUA, '''error_code::result_count);
            return;''', '''error_code::result_count);''')
B('P14', LUA, '''            m_result_callback(error_code::result_type);
            return;''', '''            m_result_callback({});
            return;''')
B('P14', LUA, '''                m_result_callback(error_code::result_value_type);
                return;''', '''                lua_pop(m_state.get(), 1);
                continue;''')
B('P14', LUA, '''                m_result_callback(error_code::result_key_type);
                return;''', '''                m_result_callback(error_code::result_key_type);
                break;''')
B('P14', LUA, '''            results.emplace(std::move(key_buf.value()),
                            std::move(value_buf.value()));''', '''            results.emplace(std::move(value_buf.value()),
                            std::move(key_buf.value()));''')
B('P14', LUA, '''            results.emplace(std::move(key_buf.value()),
                            std::move(value_buf.value()));''', '''            if(value_buf->size() > 0) {
                results.emplace(std::move(key_buf.value()),
                                std::move(value_buf.value()));
            }''')
B('P14', LUA, '''            lua_pop(m_state.get(), 1);
        }''', '''            lua_pop(m_state.get(), 2);
        }''')
B('P14', LUA, '''            if(lua_type(m_state.get(), -2) == LUA_TSTRING) {
                key_buf = get_stack_string(-2);
            }''', '''            key_buf = get_stack_string(-2);''')
B('P14', LUA, '''        buf.append(str, sz);''', '''        buf.append(str, std::strlen(str));''')
B('P14', LUA, '''        if(lua_isstring(m_state.get(), index) != 1) {
            return std::nullopt;
        }''', '''        if(lua_isstring(m_state.get(), index) != 1) {
            return buffer();
        }''')
B('P14', LUA, '''nullptr, 1, &n_results);''', '''nullptr, 0, &n_results);''')
B('P14', LUA, '''            if(n_results != 1) {
                m_log->error("Contract yielded''', '''            if(n_results == 0) {
                m_log->error("Contract yielded''')
B('P14', LUA, '''                m_result_callback(error_code::yield_type);
                return;''', '''                m_result_callback(error_code::yield_count);
                return;''')
B('P14', LUA, '''            lua_pop(m_state.get(), n_results);
''', '')
B('P14', LUA, '''broker::lock_type::write,''', '''m_is_readonly_run ? broker::lock_type::read : broker::lock_type::write,''')
B('P14', LUA, '''            if(!success) {
                m_log->error("Failed to issue try lock command");
                m_result_callback(error_code::internal_error);
            }''', '''            if(!success) {
                m_log->error("Failed to issue try lock command");
            }''')
B('P14', LUA, '''            m_log->error("Error running contract:", err);
            m_result_callback(error_code::exec_error);''', '''            m_log->error("Error running contract:", err);
            contract_epilogue(n_results);''')
B('P14', LUA, '''            m_result_callback(maybe_error.value());
            return;''', '''            m_result_callback(maybe_error.value());''')
B('P14', LUA, '''                       == runtime_locking_shard::error_code::wounded) {''', '''                       == runtime_locking_shard::error_code::not_prepared) {''')
B('P14', LUA, '''                        return error_code::wounded;
                    }''', '''                    }''')
B('P14', LUA, '''                    m_log->error("Broker error acquiring lock");
                    return error_code::lock_error;''', '''                    m_log->error("Broker error acquiring lock");
                    return std::nullopt;''')
B('P14', LUA, '''        if(n != 3) {''', '''        if(n < 3) {''')
B('P14', LUA, '''        for(int i = 1; i <= n; i++) {''', '''        for(int i = 1; i < n; i++) {''')
B('P14', LUA, '''        if(sz != sig.size()) {''', '''        if(sz > sig.size()) {''')
B('P14', LUA, '''        if(sz != key.size()) {''', '''        if(sz < key.size()) {''')
B('P14', LUA, '''            lua_pushliteral(L, "invalid pubkey");
            lua_error(L);
        }

        str = lua_tolstring(L, 3, &sz);''', '''            lua_pushliteral(L, "invalid pubkey");
            return 1;
        }

        str = lua_tolstring(L, 3, &sz);''')
B('P14', LUA, '''        str = lua_tolstring(L, 3, &sz);''', '''        str = lua_tolstring(L, 2, &sz);''')
B('P14', LUA, '''        sha.Write(unsigned_str.data(), sz);''', '''        sha.Write(unsigned_str.data(), key.size());''')
B('P14', LUA, '''                                       &pubkey)
           != 1) {''', '''                                       &pubkey)
           < 0) {''')
B('P14', LUA, '''        sha.Finalize(sighash.data());
''', '')
B('P14', LUA, '''        std::memcpy(sig.data(), str, sz);
''', '')
Q('P14', LUA, '''            lua_pop(m_state.get(), n_results);
''', '''            lua_pop(m_state.get(), 1);
''')
Q('P14', LUA, '''                                      [&](auto res) {
                                          handle_try_lock(std::move(res));
                                      });''', '''                                      [this](const auto& res) {
                                          handle_try_lock(res);
                                      });''')
Q('P14', LUA, '''        if(resume_ret == LUA_YIELD) {
            if(n_results != 1) {''', '''        if(resume_ret == LUA_OK) {
            contract_epilogue(n_results);
            return;
        }
        if(resume_ret == LUA_YIELD) {
            if(n_results != 1) {''', (LUA, '''        } else if(resume_ret != LUA_OK) {
            const auto* err = lua_tostring(m_state.get(), -1);
            m_log->error("Error running contract:", err);
            m_result_callback(error_code::exec_error);
        } else {
            contract_epilogue(n_results);
        }''', '''        } else {
            const auto* err = lua_tostring(m_state.get(), -1);
            m_log->error("Error running contract:", err);
            m_result_callback(error_code::exec_error);
        }'''))
Q('P14', LUA, '''        sha.Write(unsigned_str.data(), sz);''', '''        sha.Write(unsigned_str.data(), unsigned_str.size());''')
Q('P14', LUA, '''        auto unsigned_str = std::vector<unsigned char>(sz);
        std::memcpy(unsigned_str.data(), str, sz);
        sha.Write(unsigned_str.data(), sz);''', '''        sha.Write(reinterpret_cast<const unsigned char*>(str), sz);''')
Q('P14', LUA, '''        std::memcpy(key.data(), str, sz);''', '''        std::memcpy(key.data(), str, key.size());''')
Q('P14', LUA, '''        for(int i = 1; i <= n; i++) {''', '''        for(int i = 1; i < 4; ++i) {''')
Q('P14', LUA, '''            results.emplace(std::move(key_buf.value()),
                            std::move(value_buf.value()));''', '''            results[key_buf.value()] = value_buf.value();''')
Q('P14', LUA, '''            results.emplace(std::move(key_buf.value()),
                            std::move(value_buf.value()));''', '''            results.insert({std::move(key_buf.value()),
                            std::move(value_buf.value())});''')
Q('P14', LUA, '''        if(maybe_error.has_value()) {
            m_result_callback(maybe_error.value());
            return;
        }
        schedule_contract();''', '''        if(!maybe_error) {
            schedule_contract();
        } else {
            m_result_callback(*maybe_error);
        }''')
Q('P14', LUA, '''        while(lua_next(m_state.get(), -2) != 0) {''', '''        auto* s = m_state.get();
        while(lua_next(s, -2) != 0) {''')

# ------------------------------------------------------------------ N07
HS = 'util/rpc/http/json_rpc_http_server.cpp'
HC = 'util/rpc/http/json_rpc_http_client.cpp'
B('N07', HS, '''            new_req->m_connection = connection;
''', '')
B('N07', HS, '''                std::unique_lock l(server->m_requests_mut);
                server->m_requests.emplace(new_req.get(), std::move(new_req));''', '''                server->m_requests.emplace(new_req.get(), std::move(new_req));''')
B('N07', HS, '''            send_cors_response(req);
            return MHD_YES;''', '''            send_cors_response(req);''')
B('N07', HS, '''        if(method == std::string("OPTIONS") && req->m_server->m_enable_cors) {''', '''        if(method == std::string("OPTIONS")) {''')
B('N07', HS, '''        if(method != std::string("POST")) {''', '''        if(method == std::string("GET")) {''')
B('N07', HS, '''            *upload_data_size = 0;
''', '')
B('N07', HS, '''                static_cast<std::streamsize>(*upload_data_size));''', '''                static_cast<std::streamsize>(*upload_data_size - 1));''')
B('N07', HS, '''            send_response("Server is shutting down", req);
            return MHD_NO;
        }''', '''            send_response("Server is shutting down", req);
        }''')
B('N07', HS, '''        if(!success) {
            req->m_code = MHD_HTTP_BAD_REQUEST;
            send_response("Invalid request payload", req);
        }''', '''        if(!success) {
            req->m_code = MHD_HTTP_BAD_REQUEST;
        }''')
B('N07', HS, '''            req->m_code = MHD_HTTP_BAD_REQUEST;
''', '')
B('N07', HS, '''        if(inf->suspended == MHD_YES) {
            MHD_resume_connection(request_info->m_connection);
        }
        return ret == MHD_YES;
    }

    auto json_rpc_http_server::handle_request''', '''        if(inf->suspended == MHD_YES && ret == MHD_YES) {
            MHD_resume_connection(request_info->m_connection);
        }
        return ret == MHD_YES;
    }

    auto json_rpc_http_server::handle_request''')
B('N07', HS, '''                                      request_info->m_code,
                                      result);
        MHD_destroy_response(result);''', '''                                      request_info->m_code,
                                      result);''')
B('N07', HS, '''                                      request_info->m_code,''', '''                                      MHD_HTTP_OK,''')
B('N07', HS, '''        if(!req.isObject()) {
            return false;
        }
''', '')
B('N07', HS, '''        if(!req["method"].isString()) {
            return false;
        }
''', '')
B('N07', HS, '''        MHD_suspend_connection(request_info->m_connection);

        auto maybe_sent''', '''        auto maybe_sent''', )
B('N07', HS, '''        return maybe_sent;''', '''        return true;''')
B('N07', HS, '''            params = req["params"];''', '''            params = req;''')
B('N07', HS, '''            id = req["id"].asUInt64();''', '''            id = req["id"].asUInt();''')
B('N07', HS, '''        resp_payload["id"] = id;
''', '')
B('N07', HS, '''            request_info->m_server->send_response("Error processing request",
                                                  request_info);
            // std::cout << "request processing error" << std::endl;
            return;''', '''            return;''')
B('N07', HS, '''        request_info->m_code = MHD_HTTP_OK;
''', '')
B('N07', HS, '''            server->m_requests.erase(req);
''', '')
B('N07', HS, '''            std::unique_lock l(server->m_requests_mut);
            server->m_requests.erase(req);''', '''            server->m_requests.erase(req);''')
B('N07', HS, '''            if(inf->num_connections == 0) {''', '''            if(inf->num_connections <= 1) {''')
B('N07', HS, '''        if(request_info->m_server->m_enable_cors) {''', '''        {''')
B('N07', HC, '''            m_lb_idx = (m_lb_idx + 1) % m_endpoints.size();
''', '')
B('N07', HC, '''            m_handles.pop();
        }

        auto it''', '''        }

        auto it''')
B('N07', HC, '''        m_payload["params"] = std::move(params);
''', '')
B('N07', HC, '''        tf->m_payload = Json::writeString(m_builder, m_payload);
        curl_easy_setopt(handle, CURLOPT_POSTFIELDS, tf->m_payload.c_str());
''', '''        auto payload = Json::writeString(m_builder, m_payload);
        curl_easy_setopt(handle, CURLOPT_POSTFIELDS, payload.c_str());
''')
B('N07', HC, '''        curl_easy_setopt(handle, CURLOPT_WRITEDATA, tf.get());

''', '')
B('N07', HC, '''        auto total_sz = size * nmemb;''', '''        auto total_sz = nmemb;''')
B('N07', HC, '''            if(m->msg != CURLMSG_DONE) {
                tf->m_cb(std::nullopt);''', '''            if(m->msg != CURLMSG_DONE) {
                continue;''')
B('N07', HC, '''                    m_transfers.insert(std::move(it));
''', '')
B('N07', HC, '''                    m_transfers.insert(std::move(it));
                    continue;''', '''                    m_transfers.insert(std::move(it));''')
B('N07', HC, '''                    tf->m_result = std::stringstream();
''', '')
B('N07', HC, '''                if(http_code / 100 != 2) {
                    m_log->warn("Bad return code:", http_code);
                    tf->m_cb(std::nullopt);
                } else {''', '''                if(http_code / 100 != 2) {
                    m_log->warn("Bad return code:", http_code);
                } else {''')
B('N07', HC, '''                if(http_code / 100 != 2) {''', '''                if(http_code / 100 == 5) {''')
B('N07', HC, '''                            ")");
                        tf->m_cb(std::nullopt);''', '''                            ")");''')
B('N07', HC, '''            m_handles.push(m->easy_handle);
''', '')
B('N07', HC, '''            t->m_cb(std::nullopt);
        }
        if(curl_multi_cleanup''', '''        }
        if(curl_multi_cleanup''')
B('N07', HC, '''                                         CURL_SOCKET_TIMEOUT,
                                         0,
                                         &running);
                continue;''', '''                                         CURL_SOCKET_TIMEOUT,
                                         0,
                                         &running);
                break;''')
Q('N07', HS, '''        auto* req = static_cast<request*>(*con_cls);

        // cors''', '''        auto* const req = static_cast<request*>(*con_cls);
        auto* const srv = req->m_server;
        static_cast<void>(srv);

        // cors''')
Q('N07', HS, '''        auto success = req->m_server->handle_request(req);
        if(!success) {
            req->m_code = MHD_HTTP_BAD_REQUEST;
            send_response("Invalid request payload", req);
        }

        return MHD_YES;''', '''        if(req->m_server->handle_request(req)) {
            return MHD_YES;
        }

        req->m_code = MHD_HTTP_BAD_REQUEST;
        send_response("Invalid request payload", req);
        return MHD_YES;''')
Q('N07', HS, '''        if(!req.isMember("method")) {
            return false;
        }

        if(!req["method"].isString()) {
            return false;
        }
''', '''        if(!req.isMember("method") || !req["method"].isString()) {
            return false;
        }
''')
Q('N07', HS, '''        auto maybe_sent
            = m_cb(method,''', '''        return m_cb(method,''', (HS, '''                       handle_response(id, request_info, std::move(resp));
                   });
        return maybe_sent;''', '''                       handle_response(id, request_info, std::move(resp));
                   });'''))
Q('N07', HS, '''        if(inf->suspended == MHD_YES) {
            MHD_resume_connection(request_info->m_connection);
        }
        return ret == MHD_YES;
    }

    auto json_rpc_http_server::handle_request''', '''        if(inf->suspended != MHD_YES) {
            return ret == MHD_YES;
        }
        MHD_resume_connection(request_info->m_connection);
        return ret == MHD_YES;
    }

    auto json_rpc_http_server::handle_request''')
Q('N07', HC, '''                if(http_code / 100 != 2) {''', '''                if(http_code < 200 || http_code >= 300) {''')
Q('N07', HC, '''        auto it = m_transfers.emplace(handle, std::make_unique<transfer>());
        auto& tf = it.first->second;
''', '''        auto& tf = m_transfers.emplace(handle, std::make_unique<transfer>()).first->second;
''')
Q('N07', HC, '''        do {
            auto* m = curl_multi_info_read(m_multi_handle, &q_depth);
            if(m == nullptr) {
                break;
            }
''', '''        for(;;) {
            auto* m = curl_multi_info_read(m_multi_handle, &q_depth);
            if(m == nullptr) {
                break;
            }
''', (HC, '''        } while(q_depth > 0);
''', '''        }
'''))
EI = 'parsec/agent/runners/evm/impl.cpp'
EH = 'parsec/agent/runners/evm/host.cpp'
ES = 'parsec/agent/runners/evm/signature.cpp'
B('E01', EI, '''        if(exp_nonce != m_tx.m_nonce) {''', '''        if(m_tx.m_nonce < exp_nonce) {''')
B('E01', EI, '''        auto required_funds = m_tx.m_value + total_gas_cost;''', '''        auto required_funds = m_tx.m_value;''')
B('E01', EI, '''           || evmc::load64be(m_tx.m_gas_price.bytes) != 0
''', '')
B('E01', EI, '''        if(max_gas < m_tx.m_gas_limit
           || ''', '''        if(''')
B('E01', EI, '''
           || required_funds < m_tx.m_value) {''', ') {')
B('E01', EI, '''        from_acc.m_nonce = from_acc.m_nonce + evmc::uint256be(1);
        m_host''', '''        m_host''')
B('E01', EI, '''        from_acc.m_balance = from_acc.m_balance - total_gas_cost;
''', '')
B('E01', EI, '''                         to_hex(exp_nonce));
            m_result_callback(error_code::exec_error);
            return;''', '''                         to_hex(exp_nonce));
            m_result_callback(error_code::exec_error);''')
B('E01', EI, '''        return run_execute_transaction(from, false);''', '''        return run_execute_transaction(from, m_is_readonly_run);''')
B('E01', EI, '''        return run_execute_transaction(dryrun_tx.m_from, true);''', '''        return run_execute_transaction(dryrun_tx.m_from, m_is_readonly_run);''')
B('E01', ES, '''        auto sighash = sig_hash(tx, chain_id);''', '''        auto sighash = sig_hash(tx, 0);''')
B('E01', ES, '''        auto rlp_buf = tx_encode(tx, chain_id, true);''', '''        auto rlp_buf = tx_encode(tx, chain_id, false);''')
B('E01', ES, '''        if(rec_ret != 1) {
            return std::nullopt;
        }

        return eth_addr''', '''        return eth_addr''')
B('E01', EI, '''        } else if(m_host->should_retry()) {
            m_log->trace("Contract was wounded");
            m_result_callback(error_code::wounded);
        } else {''', '''        } else {''')
B('E01', EI, '''                m_host->finalize(gas_left, gas_used);
''', '')
B('E01', EI, '''m_host->finalize(gas_left, gas_used);''', '''m_host->finalize(gas_used, gas_left);''')
B('E01', EI, '''                m_log->trace(m_ticket_number, "locked ticket_number key");
                schedule_exec();
            });''', '''                m_log->trace(m_ticket_number, "locked ticket_number key");
            });
        schedule_exec();''')
B('E01', EI, '''                addr_key,
                broker::lock_type::write,''', '''                addr_key,
                broker::lock_type::read,''')
B('E01', EI, '''                = static_cast<int64_t>(to_uint64(evmtx.m_gas_limit - min_gas));''', '''                = static_cast<int64_t>(to_uint64(evmtx.m_gas_limit));''')
B('E01', EI, '''            min_gas = min_gas + creation_gas;''', '''            min_gas = base_gas;''')
B('E01', EI, '''        if(keys.empty()) {
            callback();
            return;
        }
        auto acquired = std::make_shared<std::atomic<size_t>>();
        for(auto& key : keys) {
            auto success = m_try_lock_callback(
                key,
                broker::lock_type::write,''', '''        if(keys.empty()) {
            callback();
            return;
        }
        auto acquired = std::make_shared<std::atomic<size_t>>();
        for(auto& key : keys) {
            auto success = m_try_lock_callback(
                key,
                broker::lock_type::read,''')
Q('E01', EI, '''        auto exp_nonce = from_acc.m_nonce + evmc::uint256be(1);
        if(exp_nonce != m_tx.m_nonce) {''', '''        const auto exp_nonce = evmc::uint256be(1) + from_acc.m_nonce;
        const auto nonce_ok = m_tx.m_nonce == exp_nonce;
        if(!nonce_ok) {''')
Q('E01', EI, '''        if(from_acc.m_balance < required_funds) {''', '''        if(!(required_funds <= from_acc.m_balance)) {''')
Q('E01', EI, '''        // Deduct gas
        from_acc.m_balance = from_acc.m_balance - total_gas_cost;
        // Increment nonce
        from_acc.m_nonce = from_acc.m_nonce + evmc::uint256be(1);
''', '''        from_acc.m_nonce = exp_nonce;
        from_acc.m_balance = from_acc.m_balance - total_gas_cost;
''')
Q('E01', EI, '''        if(!is_readonly_run) {
            m_log->trace(m_ticket_number,
                         "reading from account [",''', '''        if(is_readonly_run) {
            schedule_exec();
            return true;
        } else {
            m_log->trace(m_ticket_number,
                         "reading from account [",''', (EI, '''                m_result_callback(error_code::internal_error);
                return false;
            }
        } else {
            schedule_exec();
        }
''', '''                m_result_callback(error_code::internal_error);
                return false;
            }
        }
'''))
B('E02', EH, '''        auto maybe_acc = get_account(from, !m_is_readonly_run);''', '''        auto maybe_acc = get_account(from, false);''')
B('E02', EH, '''        to_acc.m_balance = to_acc.m_balance + val;''', '''        to_acc.m_balance = to_acc.m_balance + value;''')
B('E02', EH, '''        acc.m_balance = acc.m_balance - val;
''', '')
B('E02', EH, '''            acc.m_destruct = true;
''', '')
B('E02', EH, '''        auto maybe_to_acc = get_account(to, !m_is_readonly_run);
''', '''        auto maybe_to_acc = get_account(from, !m_is_readonly_run);
''')
B('E02', EH, '''        if(it != m_accounts.end() && (it->second.second || !write)) {''', '''        if(it != m_accounts.end() && (!it->second.second || !write)) {''')
B('E02', EH, '''        if(it != m_account_code.end() && (it->second.second || !write)) {''', '''        if(it != m_account_code.end()) {''')
B('E02', EH, '''        auto elem_key = make_buffer(code_key{addr});''', '''        auto elem_key = make_buffer(addr);''')
B('E02', EH, '''            if(itt != m.end() && (itt->second.second || !write)) {''', '''            if(itt != m.end() && !write && !itt->second.second) {''')
B('E02', EH, '''                         "failed to make try_lock request, retrying");
            m_retry = true;''', '''                         "failed to make try_lock request, retrying");''')
B('E02', EH, '''                [&](runtime_locking_shard::shard_error& /* err */)
                    -> std::optional<cbdc::buffer> {
                    m_retry = true;''', '''                [&](runtime_locking_shard::shard_error& /* err */)
                    -> std::optional<cbdc::buffer> {''')
B('E02', EH, '''            write ? broker::lock_type::write : broker::lock_type::read,''', '''            broker::lock_type::read,''')
B('E02', EH, '''            m_account_storage = std::move(account_storage);
''', '')
B('E02', EH, '''            m_receipt.m_logs = std::move(logs);
''', '')
B('E02', EH, '''        if(res.status_code != EVMC_SUCCESS) {
            m_accounts''', '''        if(res.status_code == EVMC_REVERT) {
            m_accounts''')
B('E02', EH, '''        auto account_code = m_account_code;
''', '', (EH, '''        auto res = call_unchecked(msg);
''', '''        auto res = call_unchecked(msg);
        auto account_code = m_account_code;
'''))
B('E02', EH, '''        if(!evmc::is_zero(msg.value) && msg.kind == EVMC_CALL) {''', '''        if(!evmc::is_zero(msg.value)) {''')
B('E02', EH, '''            = msg.kind == EVMC_DELEGATECALL || msg.kind == EVMC_CALLCODE
''', '''            = msg.kind == EVMC_DELEGATECALL
''')
B('E02', EH, '''            if(!acc.has_value() || !write) {
                continue;
            }
            auto key = make_buffer(addr);''', '''            if(!acc.has_value()) {
                continue;
            }
            auto key = make_buffer(addr);''')
B('E02', EH, '''            if(!acc->m_destruct) {
                val = make_buffer(*acc);
            }''', '''            val = make_buffer(*acc);''')
B('E02', EH, '''        ret[ticket_number_key()] = tid;
''', '')
B('E02', EH, '''                if(!value.has_value() || !write) {
                    continue;''', '''                if(!value.has_value() || !write) {
                    break;''')
B('E02', EH, '''            auto gas_refund = evmc::uint256be(static_cast<uint64_t>(gas_left))
''', '''            auto gas_refund = evmc::uint256be(static_cast<uint64_t>(gas_used))
''')
B('E02', EH, '''        if(!m_is_readonly_run) {
            auto maybe_acc = get_account(m_tx_context.tx_origin, true);''', '''        {
            auto maybe_acc = get_account(m_tx_context.tx_origin, true);''')
B('E02', EH, '''            = get_account_storage(addr, key, !m_is_readonly_run);
        auto prev_value''', '''            = get_account_storage(addr, key, false);
        auto prev_value''')
B('E02', EH, '''        const auto n = std::min(buffer_size, code.size() - code_offset);''', '''        const auto n = std::min(buffer_size, code.size());''')
B('E02', EH, '''        call_msg.recipient = new_addr;''', '''        call_msg.recipient = msg.recipient;''')
B('E02', EH, '''        if(res.status_code == EVMC_SUCCESS) {
            // The VM does not''', '''        if(res.status_code != EVMC_REVERT) {
            // The VM does not''')
Q('E02', EH, '''        auto val = value;
        if(evmc::is_zero(value)) {
            // Special case: destruct the from account if we're
            // transfering the entire account balance
            val = acc.m_balance;
            acc.m_destruct = true;
        }''', '''        const auto all = evmc::is_zero(value);
        const auto val = all ? acc.m_balance : value;
        if(all) {
            acc.m_destruct = true;
        }''')
Q('E02', EH, '''            if(!acc.has_value() || !write) {
                continue;
            }
            auto key = make_buffer(addr);
            auto val = cbdc::buffer();
            if(!acc->m_destruct) {
                val = make_buffer(*acc);
            }
            ret[key] = val;''', '''            if(acc.has_value() && write) {
                auto key = make_buffer(addr);
                if(acc->m_destruct) {
                    ret[key] = cbdc::buffer();
                } else {
                    ret[key] = make_buffer(acc.value());
                }
            }''')
Q('E02', EH, '''        auto it = m_accounts.find(addr);
        if(it != m_accounts.end() && (it->second.second || !write)) {
            return it->second.first;
        }''', '''        if(auto it = m_accounts.find(addr); it != m_accounts.end()) {
            const auto& [cached, held] = it->second;
            if(held || !write) {
                return cached;
            }
        }''')
Q('E02', EH, '''        const auto n = std::min(buffer_size, code.size() - code_offset);
        if(n > 0) {
            std::copy_n(&code[code_offset], n, buffer_data);
        }
        return n;''', '''        const auto left = code.size() - code_offset;
        const auto n = buffer_size < left ? buffer_size : left;
        if(n != 0) {
            std::memcpy(buffer_data, &code[code_offset], n);
        }
        return n;''')
B('E03', EI, '''        if(m_param.size() != sizeof(addr.bytes)) {''', '''        if(m_param.size() < sizeof(addr.bytes)) {''')
B('E03', EI, '''        auto tn = to_uint64(maybe_tn.value());
        make_read_host();
''', '''        auto tn = to_uint64(maybe_tn.value());
''')
B('E03', EI, '''        auto qry = maybe_qry.value();
        make_read_host();
''', '''        auto qry = maybe_qry.value();
''')
B('E03', EI, '''        if(keys.empty()) {
            handle_complete_get_logs(qry, log_indexes_mut, log_indexes);
            return true;
        }
''', '')
B('E03', EI, '''        for(auto blk = qry.m_from_block; blk <= qry.m_to_block; blk++) {''', '''        for(auto blk = qry.m_from_block; blk < qry.m_from_block; blk++) {''')
B('E03', EI, '''        if(++(*acquired) == key_count) {
            handle''', '''        if((*acquired)++ == key_count) {
            handle''')
B('E03', EI, '''        if(maybe_logs) {
            // Found potentially relevant logs, add
            std::unique_lock<std::mutex> lck(*log_indexes_mut);
            log_indexes->push_back(maybe_logs.value());
        }
        if(++(*acquired) == key_count) {
            handle_complete_get_logs(qry, log_indexes_mut, log_indexes);
        }''', '''        if(++(*acquired) == key_count) {
            handle_complete_get_logs(qry, log_indexes_mut, log_indexes);
        }
        if(maybe_logs) {
            // Found potentially relevant logs, add
            std::unique_lock<std::mutex> lck(*log_indexes_mut);
            log_indexes->push_back(maybe_logs.value());
        }''')
B('E03', EI, '''                    m_log->error("Failed to deserialize transaction receipt");
                    m_result_callback(error_code::function_load);
                    return;''', '''                    m_log->error("Failed to deserialize transaction receipt");
                    return;''')
B('E03', EI, '''            case evm_runner_function::get_transaction:
                success = run_get_transaction();''', '''            case evm_runner_function::get_transaction:
                success = run_get_transaction_receipt();''')
B('E03', EI, '''        if(!success) {
            m_result_callback(error_code::internal_error);
        }
    }''', '''    }''')
B('E03', EI, '''        if(!m_try_lock_callback(value, broker::lock_type::read, cb)) {''', '''        if(!m_try_lock_callback(m_param, broker::lock_type::read, cb)) {''')
B('E03', EI, '''            blk.m_transactions.push_back(maybe_tx_receipt.value());
''', '')
B('E03', EH, '''            ret[log.m_addr].push_back(log);''', '''            ret.begin()->second.push_back(log);''')
B('E03', EH, '''        l.m_data.resize(data_size);
        std::memcpy(l.m_data.data(), data, data_size);
''', '')
B('E03', EH, '''        sha.Write(addr.bytes, sizeof(addr.bytes));
''', '')
Q('E03', EI, '''                if(!std::holds_alternative<broker::value_type>(res)) {
                    m_log->error("Failed to read account from shards");
                    m_result_callback(error_code::function_load);
                    return;
                }
                auto v = std::get<broker::value_type>(res);
                auto ret = runtime_locking_shard::state_update_type();
                ret[m_param] = v;
                m_result_callback(ret);
            });
    }
''', '''                if(auto* v = std::get_if<broker::value_type>(&res)) {
                    auto ret = runtime_locking_shard::state_update_type();
                    ret.emplace(m_param, *v);
                    m_result_callback(ret);
                } else {
                    m_log->error("Failed to read account from shards");
                    m_result_callback(error_code::function_load);
                }
            });
    }
''')
Q('E03', EI, '''        if(++(*acquired) == key_count) {
            handle''', '''        const auto done = ++(*acquired);
        if(done == key_count) {
            handle''')
Q('E03', EH, '''            if(ret.find(log.m_addr) == ret.end()) {
                ret.insert({log.m_addr, {}});
            }
            ret[log.m_addr].push_back(log);''', '''            ret[log.m_addr].push_back(log);''')

Q('L04', 'uhs/client/client.cpp', 'data.push_back(c);', 'data.emplace_back(c);')

# the command line of the client
CL = 'uhs/client/client-cli.cpp'
B('L06', CL, 'min_send_arg_count = 7', 'min_send_arg_count = 6')
B('L06', CL, 'min_fan_arg_count = 8', 'min_fan_arg_count = 9')
B('L06', CL, 'min_mint_arg_count = 7', 'min_mint_arg_count = 6')
B('L06', CL, '''    if(value > std::numeric_limits<uint32_t>::max()) {
        std::cerr << "Value is too large" << std::endl;
        return false;
    }
''', '')
B('L06', CL, '''    if(value > std::numeric_limits<uint32_t>::max()
       || count > std::numeric_limits<uint32_t>::max()) {''', '''    if(value > std::numeric_limits<uint32_t>::max()) {''')
B('L06', CL, '''    const auto value = std::stoul(args[6]);
    const auto count = std::stoul(args[5]);''', '''    const auto value = std::stoul(args[5]);
    const auto count = std::stoul(args[6]);''')
B('L06', CL, '''client.fan(static_cast<uint32_t>(count),
                                       static_cast<uint32_t>(value),''', '''client.fan(static_cast<uint32_t>(value),
                                       static_cast<uint32_t>(count),''')
B('L06', CL, 'const auto value = std::stoul(args[5]);', 'const auto value = std::stoul(args[4]);')
B('L06', CL, 'static constexpr auto address_arg_idx = 7;', 'static constexpr auto address_arg_idx = 6;')
B('L06', CL, '''        = client.send(static_cast<uint32_t>(value), pubkey.value());
    if(!tx.has_value()) {
        std::cout << "Could not generate valid send tx." << std::endl;
        return false;
    }
''', '''        = client.send(static_cast<uint32_t>(value), pubkey.value());
    if(!tx.has_value()) {
        std::cout << "Could not generate valid send tx." << std::endl;
        return true;
    }
''')
B('L06', CL, '''        = client.mint(n_outputs, static_cast<uint32_t>(output_val));''', '''        = client.mint(output_val, static_cast<uint32_t>(n_outputs));''')
B('L06', CL, '''    if(args.size() <= input_arg_idx) {''', '''    if(args.size() < input_arg_idx) {''')
B('L06', CL, '''    client.import_send_input(in.value());
    return true;''', '''    return true;''')
B('L06', CL, '''    if(!success) {
        std::cout << "Unknown TXID" << std::endl;
        return false;
    }''', '''    if(!success) {
        std::cout << "Unknown TXID" << std::endl;
    }''')
B('L06', CL, 'min_confirmtx_arg_count = 6', 'min_confirmtx_arg_count = 5')
B('L06', CL, 'bech32::Encode(cbdc::config::bech32_hrp, data)', 'bech32::Encode("bc", data)')
B('L06', CL, '''    addr_vec[0] = static_cast<uint8_t>(cbdc::client::address_type::public_key);
''', '''    addr_vec[0] = 1;
''')
B('L06', CL, '''                addr_vec.begin()
                    + sizeof(cbdc::client::address_type::public_key));''', '''                addr_vec.begin());''')
B('L06', CL, '''            data.push_back(c);''', '''            data.insert(data.begin(), c);''')
B('L06', CL, '''    for(const auto& inp : inputs) {
        auto buf''', '''    for(const auto& inp : inputs) {
        if(!resp.has_value()) { break; }
        auto buf''')
B('L06', CL, '''    const auto wallet_file = args[3];
    const auto client_file = args[2];''', '''    const auto wallet_file = args[2];
    const auto client_file = args[3];''')
B('L06', CL, '''    if(opts.m_twophase_mode) {''', '''    if(!opts.m_twophase_mode) {''')
B('L06', CL, '''    if(!client->init()) {
        return -1;
    }''', '''    if(!client->init()) {
        return 0;
    }''')
B('L06', CL, '''    if(!client->init()) {
        return -1;
    }''', '''    client->init();''')
B('L06', CL, '''    } else if(command == "fan") {
        if(!fan_command(*client, args)) {''', '''    } else if(command == "fan") {
        if(!send_command(*client, args)) {''')
B('L06', CL, '''        if(!send_command(*client, args)) {
            return -1;
        }''', '''        send_command(*client, args);''')
B('L06', CL, '''        client->sync();
''', '')
B('L06', CL, '''        std::cerr << "Unknown command" << std::endl;''', '''        client->sync();''')
B('L06', CL, '''    static constexpr auto min_arg_count = 5;''', '''    static constexpr auto min_arg_count = 4;''')
B('L06', CL, '''    print_tx_result(tx, resp, pubkey.value());
    return true;''', '''    return true;''')
Q('L06', CL, '''    if(!success) {
        std::cout << "Unknown TXID" << std::endl;
        return false;
    }
    std::cout << "Confirmed.''', '''    if(success == false) {
        std::cout << "Unknown TXID: " << args[5] << std::endl;
        return success;
    }
    std::cout << "Confirmed.''')
Q('L06', CL, '''    const auto value = std::stoul(args[5]);
    if(value > std::numeric_limits<uint32_t>::max()) {''', '''    const uint64_t value = std::stoull(args[5]);
    if(value >= (uint64_t{1} << 32)) {''')
Q('L06', CL, '''    if(command == "mint") {
        if(!mint_command(*client, args)) {
            return -1;
        }
    } else if(command == "send") {
        if(!send_command(*client, args)) {
            return -1;
        }
    } else''', '''    if(command == "send") {
        const auto sent = send_command(*client, args);
        if(!sent) {
            return 1;
        }
    } else if(command == "mint") {
        if(!mint_command(*client, args)) {
            return -1;
        }
    } else''')
Q('L06', CL, '''    std::copy_n(addr.begin(),
                addr.size(),
                addr_vec.begin()
                    + sizeof(cbdc::client::address_type::public_key));''', '''    std::copy(addr.begin(), addr.end(), addr_vec.begin() + 1);''')
Q('L06', CL, '''            data.push_back(c);''', '''            data.emplace_back(c);''')
Q('N06', 'uhs/twophase/coordinator/controller.cpp', 'if(!listener.init()) {', 'if([&] { return !listener.init(); }()) {')
Q('N06', 'uhs/twophase/coordinator/controller.cpp', 'if(!listener.init()) {', 'if(listener.init() == false) {')

# ---- X04, U01, U02
B('X04', 'uhs/sentinel/interface.cpp', '''std::tie(m_tx_status, m_tx_error)
            == std::tie(rhs.m_tx_status, rhs.m_tx_error)''', '''std::tie(m_tx_status)
            == std::tie(rhs.m_tx_status)''')
B('X04', 'uhs/transaction/validation.cpp', 'return std::tie(m_code, m_idx) == std::tie(rhs.m_code, rhs.m_idx);\n    }\n\n    auto witness', 'return m_code == rhs.m_code || m_idx == rhs.m_idx;\n    }\n\n    auto witness')
B('X04', 'uhs/transaction/validation.cpp', '== std::tie(rhs.m_code, rhs.m_data_err, rhs.m_idx)', '== std::tie(rhs.m_code, m_data_err, rhs.m_idx)')
B('X04', 'uhs/atomizer/watchtower/tx_error_messages.cpp', '*rhs.m_info == *m_info', 'rhs.m_info == m_info')
B('X04', 'uhs/atomizer/watchtower/tx_error_messages.cpp', '*rhs.m_info == *m_info', 'rhs.m_info->index() == m_info->index()')
B('X04', 'uhs/twophase/locking_shard/messages.cpp', 'std::tie(m_dtx_id, m_params)\n            == std::tie(rhs.m_dtx_id, rhs.m_params)', 'm_dtx_id == rhs.m_dtx_id')
B('X04', 'uhs/transaction/transaction.cpp', '\n            && rhs.m_witness == m_witness', '')
B('X04', 'util/common/hashmap.cpp', 'std::memcpy(&ret, hash.data(), sizeof(ret));', 'ret = reinterpret_cast<size_t>(hash.data());')
B('X04', 'uhs/transaction/transaction.cpp', 'std::memcpy(&ret, tx.m_id.data(), sizeof(ret));', 'ret = tx.m_attestations.size();')
B('X04', 'parsec/agent/runners/evm/messages.hpp', 'm_storage_keys == rhs.m_storage_keys', 'm_storage_keys.size() == rhs.m_storage_keys.size()')
Q('X04', 'uhs/sentinel/interface.cpp', '''std::tie(m_tx_status, m_tx_error)
            == std::tie(rhs.m_tx_status, rhs.m_tx_error)''', '''m_tx_status == rhs.m_tx_status && rhs.m_tx_error == m_tx_error''')
Q('X04', 'uhs/transaction/validation.cpp', '''std::tie(m_code, m_data_err, m_idx)
            == std::tie(rhs.m_code, rhs.m_data_err, rhs.m_idx)''', '''m_idx == rhs.m_idx && std::tie(m_code, m_data_err)
            == std::tie(rhs.m_code, rhs.m_data_err)''')
Q('X04', 'uhs/transaction/transaction.cpp', 'return m_tx_id == rhs.m_tx_id && m_index == rhs.m_index;', 'if(m_index != rhs.m_index) { return false; } return rhs.m_tx_id == m_tx_id;')
CSH = 'util/common/cache_set.hpp'
B('U01', CSH, 'm_eviction_queue.size() >= m_max_size) {', 'm_eviction_queue.size() + 1 >= m_max_size) {')
B('U01', CSH, 'm_eviction_queue.size() >= m_max_size) {', 'm_eviction_queue.size() > m_max_size + 1) {')
B('U01', CSH, 'm_eviction_queue.front()', 'm_eviction_queue.back()')
B('U01', CSH, '''            if(added.second) {
                m_evic''', '''            {
                m_evic''')
B('U01', CSH, 'm_vals.erase(v);', '')
B('U01', CSH, '''                    m_vals.erase(v);
                    m_eviction_queue.pop();''', '''                    m_eviction_queue.pop();
                    m_vals.erase(m_eviction_queue.front());''')
B('U01', CSH, 'std::unique_lock<std::shared_mutex> l(m_mut);', 'std::shared_lock<std::shared_mutex> l(m_mut);')
B('U01', CSH, 'std::shared_lock<std::shared_mutex> l(m_mut);', '')
B('U01', CSH, 'return added.second;', 'return true;')
B('U01', CSH, 'm_vals.find(val) != m_vals.end()', 'm_vals.find(val) == m_vals.end()')
B('U01', CSH, 'm_max_size(max_size)', 'm_max_size(max_size / 2)')
B('U01', CSH, 'm_vals.erase(v);\n', 'm_vals.clear();\n')
Q('U01', CSH, 'm_eviction_queue.size() >= m_max_size) {', 'm_eviction_queue.size() > m_max_size) {')
Q('U01', CSH, '''            if(added.second) {
                m_evic''', '''            if(!added.second) {
                return false;
            }
            {
                m_evic''')
Q('U01', CSH, 'm_vals.find(val) != m_vals.end()', 'm_vals.count(val) > 0')
Q('U01', CSH, '''                    auto& v = m_eviction_queue.front();
                    m_vals.erase(v);''', '''                    m_vals.erase(m_eviction_queue.front().get());''')
RND = 'util/common/random_source.cpp'
B('U02', RND, 'hash_at_index(m_counter++)', 'hash_at_index(m_counter)')
B('U02', RND, 'hash_at_index(m_counter++)', 'hash_at_index(0)')
B('U02', RND, '            m_buf.pop();\n', '')
B('U02', RND, 'if(m_buf.empty()) {', 'if(m_buf.size() < 2) {')
B('U02', RND, 'std::unique_lock<std::mutex> l(m_mut);', '')
B('U02', RND, 'm_sha.Write(idx_arr.data(), sizeof(idx));', 'm_sha.Write(idx_arr.data(), 1);')
B('U02', RND, 'm_sha.Write(idx_arr.data(), sizeof(idx));', 'm_sha.Reset();\n        m_sha.Write(idx_arr.data(), sizeof(idx));')
B('U02', RND, 'std::uniform_int_distribution<unsigned char> gen;', "std::uniform_int_distribution<unsigned char> gen('a', 'z');")
B('U02', RND, 'for(auto b : h) {\n                    m_buf.push(b);', 'for(auto b : h) {\n                    m_buf.push(b);\n                    m_buf.push(b);')
B('U02', RND, 'ret_arr.data(), ret_arr.size());', 'ret_arr.data(), 2);')
B('U02', RND, 'dest_unsigned.data(), dest_unsigned.size());', 'dest_unsigned.data(), 4);')
Q('U02', RND, 'hash_at_index(m_counter++);', 'hash_at_index(m_counter);\n                m_counter += 1;')
Q('U02', RND, 'if(m_buf.empty()) {', 'if(m_buf.size() == 0) {')
Q('U02', RND, '''            v = m_buf.front();
            m_buf.pop();''', '''            const auto next = m_buf.front();
            m_buf.pop();
            v = next;''')
Q('U02', RND, 'for(auto b : h) {\n                    m_buf.push(b);\n                }', 'for(size_t i = 0; i < h.size(); i++) {\n                    m_buf.push(h[i]);\n                }')
Q('U02', RND, '        std::uniform_int_distribution<unsigned char> gen;\n        for(auto&& b : ret) {\n            b = gen(*this);\n', '        auto gen = std::uniform_int_distribution<unsigned char>();\n        for(auto& b : ret) {\n            b = gen(*this);\n')
B('S02', 'uhs/twophase/locking_shard/locking_shard.cpp', 'if(!complete_txs[i] && (was_locked != 0U)) {', 'if(!complete_txs[i] && hash_in_shard_range(tx.m_tx.m_id) && (was_locked != 0U)) {')
B('S02', 'uhs/twophase/locking_shard/locking_shard.cpp', 'if(!complete_txs[i] && (was_locked != 0U)) {', 'if(!complete_txs[i] && !tx.m_tx.m_uhs_outputs.empty() && (was_locked != 0U)) {')
B('S02', 'uhs/twophase/locking_shard/locking_shard.cpp', '''                    if(!complete_txs[i] && (was_locked != 0U)) {
                        m_uhs.emplace(uhs_id);
                    }''', '')
Q('S02', 'uhs/twophase/locking_shard/locking_shard.cpp', '''                    auto was_locked = m_locked.erase(uhs_id);
                    if(!complete_txs[i] && (was_locked != 0U)) {
                        m_uhs.emplace(uhs_id);
                    }''', '''                    const auto it = m_locked.find(uhs_id);
                    if(it != m_locked.end()) {
                        m_locked.erase(it);
                        if(!complete_txs[i]) {
                            m_uhs.emplace(uhs_id);
                        }
                    }''')
B('E02', EH, '            m_receipt.m_create_address = new_addr;', '            m_receipt.m_gas_used = evmc::uint256be(0);')
B('E02', EH, '            m_receipt.m_create_address = new_addr;', '            m_receipt.m_create_address = msg.recipient;')
Q('E02', EH, '            m_receipt.m_create_address = new_addr;', '            auto created = new_addr;\n            m_receipt.m_create_address = created;')
AIMPL = 'parsec/agent/impl.cpp'
B('P11', AIMPL, '                          != error_code::retry) {\n                    m_log->fatal("Result reported in rollback_complete', '                          == error_code::retry) {\n                    m_log->fatal("Result reported in rollback_complete')
B('P11', AIMPL, '''                    m_log->fatal("Result reported in rollback_complete state "
                                 "when result is not retry");
                }''', '''                    m_log->warn("not retry");
                }
                m_log->fatal("Result reported in rollback_complete state");''')
