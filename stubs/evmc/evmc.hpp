#pragma once
#include "evmc.h"
#include <cstring>
#include <functional>
#include <initializer_list>
#include <string>
namespace evmc {
    using bytes = std::basic_string<uint8_t>;
    struct bytes32 : evmc_bytes32 {
        constexpr bytes32() noexcept : evmc_bytes32{} {}
        constexpr bytes32(evmc_bytes32 init) noexcept : evmc_bytes32{init} {}
        constexpr explicit bytes32(uint64_t v) noexcept : evmc_bytes32{} { bytes[31] = static_cast<uint8_t>(v); }
        explicit operator bool() const noexcept;
    };
    using uint256be = bytes32;
    struct address : evmc_address {
        constexpr address() noexcept : evmc_address{} {}
        constexpr address(evmc_address init) noexcept : evmc_address{init} {}
        constexpr explicit address(uint64_t) noexcept : evmc_address{} {}
        explicit operator bool() const noexcept;
    };
    bool operator==(const address& a, const address& b);
    bool operator!=(const address& a, const address& b);
    bool operator<(const address& a, const address& b);
    bool operator==(const bytes32& a, const bytes32& b);
    bool operator!=(const bytes32& a, const bytes32& b);
    bool operator<(const bytes32& a, const bytes32& b);
    bool operator>(const bytes32& a, const bytes32& b);
    bool operator<=(const bytes32& a, const bytes32& b);
    bool operator>=(const bytes32& a, const bytes32& b);
    uint64_t load64be(const uint8_t* data) noexcept;
    bool is_zero(const address& a) noexcept;
    bool is_zero(const bytes32& a) noexcept;
    template<typename T> T from_hex(const std::string&);
    const char* to_string(evmc_status_code) noexcept;
    evmc_result make_result(evmc_status_code status_code, int64_t gas_left, int64_t gas_refund, const uint8_t* output_data, size_t output_size) noexcept;
    class Result : private evmc_result {
      public:
        using evmc_result::create_address;
        using evmc_result::gas_left;
        using evmc_result::gas_refund;
        using evmc_result::output_data;
        using evmc_result::output_size;
        using evmc_result::status_code;
        explicit Result(const evmc_result& res) noexcept;
        Result(Result&& other) noexcept;
        ~Result() noexcept;
    };
    class HostInterface {
      public:
        virtual ~HostInterface() noexcept;
        virtual bool account_exists(const address& addr) const noexcept = 0;
        virtual bytes32 get_storage(const address& addr, const bytes32& key) const noexcept = 0;
        virtual evmc_storage_status set_storage(const address& addr, const bytes32& key, const bytes32& value) noexcept = 0;
        virtual uint256be get_balance(const address& addr) const noexcept = 0;
        virtual size_t get_code_size(const address& addr) const noexcept = 0;
        virtual bytes32 get_code_hash(const address& addr) const noexcept = 0;
        virtual size_t copy_code(const address& addr, size_t code_offset, uint8_t* buffer_data, size_t buffer_size) const noexcept = 0;
        virtual bool selfdestruct(const address& addr, const address& beneficiary) noexcept = 0;
        virtual Result call(const evmc_message& msg) noexcept = 0;
        virtual evmc_tx_context get_tx_context() const noexcept = 0;
        virtual bytes32 get_block_hash(int64_t block_number) const noexcept = 0;
        virtual void emit_log(const address& addr, const uint8_t* data, size_t data_size, const bytes32 topics[], size_t num_topics) noexcept = 0;
        virtual evmc_access_status access_account(const address& addr) noexcept = 0;
        virtual evmc_access_status access_storage(const address& addr, const bytes32& key) noexcept = 0;
    };
    class Host : public HostInterface {};
    class VM {
      public:
        explicit VM(evmc_vm* vm) noexcept;
        explicit operator bool() const noexcept;
        bool is_abi_compatible() const noexcept;
        Result execute(Host& host, evmc_revision rev, const evmc_message& msg, const uint8_t* code, size_t code_size) noexcept;
    };
}
namespace std {
    template<> struct hash<evmc::address> { size_t operator()(const evmc::address&) const noexcept; };
    template<> struct hash<evmc::bytes32> { size_t operator()(const evmc::bytes32&) const noexcept; };
}
