// Declaration-only stand-in for the NuRaft API (not installed here), so that
// the sources of /repo that use it can be parsed and type-checked. Nothing is
// ever linked or run against it.
#pragma once
#include <atomic>
#include <cassert>
#include <chrono>
#include <cstddef>
#include <mutex>
#include <thread>
#include <unordered_map>
#include <condition_variable>
#include <cstdint>
#include <exception>
#include <functional>
#include <list>
#include <memory>
#include <string>
#include <vector>
namespace nuraft {
    template<typename T> using ptr = std::shared_ptr<T>;
    template<typename T> using wptr = std::weak_ptr<T>;
    using byte = uint8_t;
    using ulong = uint64_t;
    using int32 = int32_t;
    template<typename T, typename... A> inline ptr<T> cs_new(A&&... a) {
        return std::make_shared<T>(std::forward<A>(a)...);
    }
    class buffer {
      public:
        static ptr<buffer> alloc(const size_t size);
        static ptr<buffer> copy(const buffer& buf);
        static ptr<buffer> clone(const buffer& buf);
        size_t container_size() const;
        size_t size() const;
        size_t pos() const;
        void pos(size_t p);
        byte* data() const;
        byte* data_begin() const;
        int32 get_int();
        ulong get_ulong();
        byte get_byte();
        const byte* get_bytes(size_t& len);
        const char* get_str();
        byte* get_raw(size_t len);
        void put(byte b);
        void put(int32 v);
        void put(ulong v);
        void put(const char* ba, size_t len);
        void put(const byte* ba, size_t len);
        void put_raw(const byte* ba, size_t len);
        void put(const std::string& str);
        void put(const buffer& buf);
    };
    class buffer_serializer {
      public:
        buffer_serializer(buffer& b);
        buffer_serializer(ptr<buffer>& b);
        size_t pos() const;
        void pos(size_t p);
        size_t size() const;
        void put_u8(uint8_t);
        void put_u16(uint16_t);
        void put_u32(uint32_t);
        void put_u64(uint64_t);
        void put_i32(int32_t);
        void put_i64(int64_t);
        void put_raw(const void* raw_ptr, size_t len);
        void put_bytes(const void* raw_ptr, size_t len);
        void put_buffer(const buffer& b);
        void put_str(const std::string& s);
        uint8_t get_u8();
        uint16_t get_u16();
        uint32_t get_u32();
        uint64_t get_u64();
        int32_t get_i32();
        int64_t get_i64();
        void* get_raw(size_t len);
        void get_buffer(ptr<buffer>& b);
        void* get_bytes(size_t& len);
        std::string get_str();
    };
    enum log_val_type { app_log = 1, conf = 2, cluster_server = 3, log_pack = 4, snp_sync_req = 5, custom = 999 };
    class log_entry {
      public:
        log_entry(ulong term, const ptr<buffer>& buff, log_val_type value_type = app_log);
        ulong get_term() const;
        void set_term(ulong);
        log_val_type get_val_type() const;
        buffer& get_buf() const;
        ptr<buffer> get_buf_ptr() const;
        bool is_buf_null() const;
        ptr<buffer> serialize();
        static ptr<log_entry> deserialize(buffer& buf);
    };
    class log_store {
      public:
        virtual ~log_store();
        virtual ulong next_slot() const = 0;
        virtual ulong start_index() const = 0;
        virtual ptr<log_entry> last_entry() const = 0;
        virtual ulong append(ptr<log_entry>& entry) = 0;
        virtual void write_at(ulong index, ptr<log_entry>& entry) = 0;
        virtual void end_of_append_batch(ulong start, ulong cnt) {}
        virtual ptr<std::vector<ptr<log_entry>>> log_entries(ulong start, ulong end) = 0;
        virtual ptr<log_entry> entry_at(ulong index) = 0;
        virtual ulong term_at(ulong index) = 0;
        virtual ptr<buffer> pack(ulong index, int32 cnt) = 0;
        virtual void apply_pack(ulong index, buffer& pack) = 0;
        virtual bool compact(ulong last_log_index) = 0;
        virtual bool flush() = 0;
        virtual ulong last_durable_index();
    };
    class srv_config {
      public:
        srv_config(int32 id, const std::string& endpoint);
        int32 get_id() const;
        const std::string& get_endpoint() const;
        void set_priority(const int32 new_val);
    };
    class cluster_config {
      public:
        cluster_config(ulong log_idx = 0, ulong prev_log_idx = 0, bool _ec = false);
        static ptr<cluster_config> deserialize(buffer& buf);
        static ptr<cluster_config> deserialize(buffer_serializer& buf);
        ptr<buffer> serialize() const;
        std::list<ptr<srv_config>>& get_servers();
        ptr<srv_config> get_server(int id) const;
    };
    class srv_state {
      public:
        static ptr<srv_state> deserialize(buffer& buf);
        ptr<buffer> serialize() const;
        ulong get_term() const;
    };
    class snapshot {
      public:
        snapshot(ulong last_log_idx, ulong last_log_term, const ptr<cluster_config>& last_config, ulong size = 0);
        ulong get_last_log_idx() const;
        ulong get_last_log_term() const;
        ulong size() const;
        void set_size(ulong size);
        const ptr<cluster_config>& get_last_config() const;
        static ptr<snapshot> deserialize(buffer& buf);
        static ptr<snapshot> deserialize(buffer_serializer& bs);
        ptr<buffer> serialize();
    };
    enum cmd_result_code { OK = 0, CANCELLED = -1, TIMEOUT = -2, NOT_LEADER = -3, BAD_REQUEST = -4, FAILED = -32768, RESULT_NOT_EXIST_YET = -16777216 };
    template<typename T, typename TE = ptr<std::exception>> class cmd_result {
      public:
        using handler_type = std::function<void(T&, TE&)>;
        using handler_type2 = std::function<void(cmd_result<T, TE>&, TE&)>;
        cmd_result();
        explicit cmd_result(T& result, bool accepted = false, cmd_result_code code = OK);
        void when_ready(const handler_type2& handler);
        void when_ready(const handler_type& handler);
        T& get();
        bool get_accepted() const;
        cmd_result_code get_result_code() const;
        bool has_result() const;
        void set_result(T&, TE&, cmd_result_code code = OK);
        void accept();
    };
    template<typename T, typename TE = ptr<std::exception>> using async_result = cmd_result<T, TE>;
    class state_mgr {
      public:
        virtual ~state_mgr();
        virtual ptr<cluster_config> load_config() = 0;
        virtual void save_config(const cluster_config& config) = 0;
        virtual void save_state(const srv_state& state) = 0;
        virtual ptr<srv_state> read_state() = 0;
        virtual ptr<log_store> load_log_store() = 0;
        virtual int32 server_id() = 0;
        virtual void system_exit(const int exit_code) = 0;
    };
    class state_machine {
      public:
        virtual ~state_machine();
        virtual ptr<buffer> pre_commit(const ulong log_idx, buffer& data) { return nullptr; }
        virtual ptr<buffer> commit(const ulong log_idx, buffer& data) { return nullptr; }
        virtual void commit_config(const ulong log_idx, ptr<cluster_config>& new_conf) {}
        virtual void rollback(const ulong log_idx, buffer& data) {}
        virtual bool apply_snapshot(snapshot& s) = 0;
        virtual int read_logical_snp_obj(snapshot& s, void*& user_snp_ctx, ulong obj_id, ptr<buffer>& data_out, bool& is_last_obj) { return 0; }
        virtual void save_logical_snp_obj(snapshot& s, ulong& obj_id, buffer& data, bool is_first_obj, bool is_last_obj) {}
        virtual void free_user_snp_ctx(void*& user_snp_ctx) {}
        virtual ptr<snapshot> last_snapshot() = 0;
        virtual ulong last_commit_index() = 0;
        virtual void create_snapshot(snapshot& s, async_result<bool>::handler_type& when_done) = 0;
    };
    class logger {
      public:
        virtual ~logger();
        virtual void set_level(int l) {}
        virtual int get_level() { return 6; }
        virtual void put_details(int level, const char* source_file, const char* func_name, size_t line_number, const std::string& log_line) {}
    };
    struct raft_params {
        enum return_method_type { blocking = 0, async_handler = 1 };
        raft_params();
        int32 election_timeout_upper_bound_;
        int32 election_timeout_lower_bound_;
        int32 heart_beat_interval_;
        int32 rpc_failure_backoff_;
        int32 log_sync_batch_size_;
        int32 log_sync_stop_gap_;
        int32 snapshot_distance_;
        int32 snapshot_block_size_;
        bool enable_randomized_snapshot_creation_;
        int32 max_append_size_;
        int32 reserved_log_items_;
        int32 client_req_timeout_;
        int32 fresh_log_gap_;
        int32 stale_log_gap_;
        bool auto_forwarding_;
        return_method_type return_method_;
    };
    class cb_func {
      public:
        enum Type { ProcessReq = 1, GotAppendEntryRespFromPeer = 2, AppendLogs = 3, HeartBeat = 4, JoinedCluster = 5, BecomeLeader = 6, RequestAppendEntries = 7, SaveSnapshot = 8, NewConfig = 9, RemovedFromCluster = 10, BecomeFollower = 11, BecomeFresh = 12, BecomeStale = 13 };
        struct Param { int32 myId; int32 leaderId; int32 peerId; void* ctx; };
        enum ReturnCode { Ok = 0, ReturnNull = -1 };
        using func_type = std::function<ReturnCode(Type, Param*)>;
    };
    struct asio_service_options { size_t thread_pool_size_; };
    class asio_service { public: using options = asio_service_options; };
    class raft_server {
      public:
        struct init_options {
            bool skip_initial_election_timeout_;
            cb_func::func_type raft_callback_;
            bool start_server_in_constructor_;
        };
        bool is_initialized() const;
        bool is_leader() const;
        bool is_leader_alive() const;
        int32 get_leader() const;
        void shutdown();
        ptr<cmd_result<ptr<buffer>>> append_entries(const std::vector<ptr<buffer>>& logs);
        ulong get_committed_log_idx() const;
    };
    class raft_launcher {
      public:
        ptr<raft_server> init(ptr<state_machine> sm, ptr<state_mgr> smgr, ptr<logger> lg, int port_number, const asio_service::options& asio_options, const raft_params& params, const raft_server::init_options& opt = raft_server::init_options());
        bool shutdown(size_t time_limit_sec = 5);
    };
}
