#pragma once

#include <array>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <vector>

#include "expression.hpp"
#include "fields.hpp"

namespace nil {
    namespace crypto3 {
        namespace zk {
            namespace snark {
                template<typename FieldType>
                class r1cs_constraint_system;

                template<typename AssignmentType>
                class plonk_variable {
                public:
                    using assignment_type = AssignmentType;
                    using expression_type = math::expression<plonk_variable>;
                    enum column_type : std::uint8_t { witness, public_input, constant, selector, uninitialized };

                    std::size_t index;
                    std::int32_t rotation;
                    bool relative;
                    column_type type;

                    constexpr plonk_variable() : index(0), rotation(0), relative(false), type(column_type::uninitialized) {}
                    constexpr plonk_variable(std::size_t i, std::int32_t r, bool rel = true,
                                             column_type t = column_type::witness)
                        : index(i), rotation(r), relative(rel), type(t) {}

                    expression_type pow(std::size_t p) const {
                        return math::term<plonk_variable>(std::vector<plonk_variable>(p, *this));
                    }
                    expression_type operator^(std::size_t p) const {
                        return pow(p);
                    }
                    expression_type operator-() const {
                        return math::term<plonk_variable>({*this}, -assignment_type::one());
                    }
                    // operators with at least one variable among the operands
                    friend expression_type operator+(const plonk_variable &a, const expression_type &b) {
                        return expression_type(a) + b;
                    }
                    friend expression_type operator+(const expression_type &a, const plonk_variable &b) {
                        return a + expression_type(b);
                    }
                    friend expression_type operator+(const plonk_variable &a, const plonk_variable &b) {
                        return expression_type(a) + expression_type(b);
                    }
                    friend expression_type operator-(const plonk_variable &a, const expression_type &b) {
                        return expression_type(a) - b;
                    }
                    friend expression_type operator-(const expression_type &a, const plonk_variable &b) {
                        return a - expression_type(b);
                    }
                    friend expression_type operator-(const plonk_variable &a, const plonk_variable &b) {
                        return expression_type(a) - expression_type(b);
                    }
                    friend expression_type operator*(const plonk_variable &a, const expression_type &b) {
                        return expression_type(a) * b;
                    }
                    friend expression_type operator*(const expression_type &a, const plonk_variable &b) {
                        return a * expression_type(b);
                    }
                    friend expression_type operator*(const plonk_variable &a, const plonk_variable &b) {
                        return expression_type(a) * expression_type(b);
                    }
                    // 1 - x is kept as -(x - 1)
                    template<typename T, typename = boost::multiprecision::vp::if_int<T>>
                    friend expression_type operator-(const T &a, const plonk_variable &b) {
                        return -(b - expression_type(a));
                    }
                    friend bool operator==(const plonk_variable &a, const plonk_variable &b) {
                        return a.index == b.index && a.rotation == b.rotation && a.relative == b.relative &&
                               a.type == b.type;
                    }
                    friend bool operator!=(const plonk_variable &a, const plonk_variable &b) {
                        return !(a == b);
                    }
                    friend bool operator<(const plonk_variable &a, const plonk_variable &b) {
                        return std::make_tuple(a.index, a.rotation, a.relative, int(a.type)) <
                               std::make_tuple(b.index, b.rotation, b.relative, int(b.type));
                    }
                    friend std::ostream &operator<<(std::ostream &os, const plonk_variable &v) {
                        static const char *names[] = {"w", "p", "c", "s", "u"};
                        return os << names[int(v.type)] << "_" << v.index << (v.relative ? "^r" : "^a") << "(" << v.rotation
                                  << ")";
                    }
                };

                template<typename FieldType>
                using plonk_column = std::vector<typename FieldType::value_type>;

                template<typename FieldType>
                struct plonk_table_description {
                    std::size_t witness_columns, public_input_columns, constant_columns, selector_columns;
                    std::size_t usable_rows_amount = 0, rows_amount = 0;

                    plonk_table_description(std::size_t w, std::size_t p, std::size_t c, std::size_t s)
                        : witness_columns(w), public_input_columns(p), constant_columns(c), selector_columns(s) {}
                    plonk_table_description(std::size_t w, std::size_t p, std::size_t c, std::size_t s, std::size_t u,
                                            std::size_t r)
                        : witness_columns(w), public_input_columns(p), constant_columns(c), selector_columns(s),
                          usable_rows_amount(u), rows_amount(r) {}
                    std::size_t table_width() const {
                        return witness_columns + public_input_columns + constant_columns + selector_columns;
                    }
                    std::size_t global_index(const plonk_variable<typename FieldType::value_type> &v) const {
                        using var = plonk_variable<typename FieldType::value_type>;
                        switch (v.type) {
                            case var::witness:
                                return v.index;
                            case var::public_input:
                                return witness_columns + v.index;
                            case var::constant:
                                return witness_columns + public_input_columns + v.index;
                            default:
                                return witness_columns + public_input_columns + constant_columns + v.index;
                        }
                    }
                };

                template<typename FieldType, typename ColumnType = plonk_column<FieldType>>
                class plonk_private_table {
                public:
                    using witnesses_container_type = std::vector<ColumnType>;
                    witnesses_container_type _witnesses;

                    plonk_private_table(witnesses_container_type w = {}) : _witnesses(w) {}
                    virtual ~plonk_private_table() = default;
                    std::uint32_t witnesses_amount() const {
                        return _witnesses.size();
                    }
                    std::uint32_t witness_column_size(std::uint32_t i) const {
                        return _witnesses[i].size();
                    }
                    const ColumnType &witness(std::uint32_t i) const {
                        return _witnesses.at(i);
                    }
                    const witnesses_container_type &witnesses() const {
                        return _witnesses;
                    }
                    std::uint32_t rows_amount() const {
                        std::size_t n = 0;
                        for (const auto &c : _witnesses) {
                            n = std::max(n, c.size());
                        }
                        return n;
                    }
                };

                template<typename FieldType, typename ColumnType = plonk_column<FieldType>>
                class plonk_public_table {
                public:
                    using container_type = std::vector<ColumnType>;
                    container_type _public_inputs, _constants, _selectors;

                    plonk_public_table(container_type p = {}, container_type c = {}, container_type s = {})
                        : _public_inputs(p), _constants(c), _selectors(s) {}
                    virtual ~plonk_public_table() = default;
#define VP_COLUMNS(NAME, MEMBER)                                \
    std::uint32_t NAME##s_amount() const {                      \
        return MEMBER.size();                                   \
    }                                                           \
    std::uint32_t NAME##_column_size(std::uint32_t i) const {   \
        return MEMBER[i].size();                                \
    }                                                           \
    const ColumnType &NAME(std::uint32_t i) const {             \
        return MEMBER.at(i);                                    \
    }                                                           \
    const container_type &NAME##s() const {                     \
        return MEMBER;                                          \
    }
                    VP_COLUMNS(public_input, _public_inputs)
                    VP_COLUMNS(constant, _constants)
                    VP_COLUMNS(selector, _selectors)
#undef VP_COLUMNS
                    void fill_selector(std::uint32_t i, const ColumnType &c) {
                        if (_selectors.size() <= i) {
                            _selectors.resize(i + 1);
                        }
                        _selectors[i] = c;
                    }
                    void fill_constant(std::uint32_t i, const ColumnType &c) {
                        if (_constants.size() <= i) {
                            _constants.resize(i + 1);
                        }
                        _constants[i] = c;
                    }
                    std::uint32_t rows_amount() const {
                        std::size_t n = 0;
                        for (const auto *g : {&_public_inputs, &_constants, &_selectors}) {
                            for (const auto &c : *g) {
                                n = std::max(n, c.size());
                            }
                        }
                        return n;
                    }
                };

                template<typename FieldType, typename ColumnType = plonk_column<FieldType>>
                class plonk_table {
                public:
                    using private_table_type = plonk_private_table<FieldType, ColumnType>;
                    using public_table_type = plonk_public_table<FieldType, ColumnType>;
                    using value_type = typename FieldType::value_type;

                protected:
                    private_table_type _private_table;
                    public_table_type _public_table;

                public:
                    plonk_table(std::size_t w, std::size_t p, std::size_t c, std::size_t s)
                        : _private_table(std::vector<ColumnType>(w)),
                          _public_table(std::vector<ColumnType>(p), std::vector<ColumnType>(c), std::vector<ColumnType>(s)) {}
                    plonk_table(const private_table_type &a, const public_table_type &b) : _private_table(a), _public_table(b) {}
                    virtual ~plonk_table() = default;

                    std::uint32_t witnesses_amount() const {
                        return _private_table.witnesses_amount();
                    }
                    std::uint32_t witness_column_size(std::uint32_t i) const {
                        return _private_table.witness_column_size(i);
                    }
                    const ColumnType &witness(std::uint32_t i) const {
                        return _private_table.witness(i);
                    }
                    const typename private_table_type::witnesses_container_type &witnesses() const {
                        return _private_table.witnesses();
                    }
#define VP_COLUMNS(NAME)                                        \
    std::uint32_t NAME##s_amount() const {                      \
        return _public_table.NAME##s_amount();                  \
    }                                                           \
    std::uint32_t NAME##_column_size(std::uint32_t i) const {   \
        return _public_table.NAME##_column_size(i);             \
    }                                                           \
    const ColumnType &NAME(std::uint32_t i) const {             \
        return _public_table.NAME(i);                           \
    }                                                           \
    const typename public_table_type::container_type &NAME##s() const { \
        return _public_table.NAME##s();                         \
    }
                    VP_COLUMNS(public_input)
                    VP_COLUMNS(constant)
                    VP_COLUMNS(selector)
#undef VP_COLUMNS
                    virtual void fill_selector(std::uint32_t i, const ColumnType &c) {
                        _public_table.fill_selector(i, c);
                    }
                    virtual void fill_constant(std::uint32_t i, const ColumnType &c) {
                        _public_table.fill_constant(i, c);
                    }
                    const private_table_type &private_table() const {
                        return _private_table;
                    }
                    const public_table_type &public_table() const {
                        return _public_table;
                    }
                    virtual void resize_witnesses(std::uint32_t n) {
                        _private_table._witnesses.resize(n);
                    }
                    virtual void resize_public_inputs(std::uint32_t n) {
                        _public_table._public_inputs.resize(n);
                    }
                    virtual void resize_constants(std::uint32_t n) {
                        _public_table._constants.resize(n);
                    }
                    virtual void resize_selectors(std::uint32_t n) {
                        _public_table._selectors.resize(n);
                    }
                    void resize_columns(std::size_t n) {
                        for (auto *g : {&_private_table._witnesses, &_public_table._public_inputs, &_public_table._constants,
                                        &_public_table._selectors}) {
                            for (auto &c : *g) {
                                c.resize(n);
                            }
                        }
                    }
                    std::uint32_t size() const {
                        return witnesses_amount() + public_inputs_amount() + constants_amount() + selectors_amount();
                    }
                    std::uint32_t rows_amount() const {
                        return std::max(_private_table.rows_amount(), _public_table.rows_amount());
                    }

                    // Cells which were never written are zero. Rows wrap around.
                    value_type get_variable_value(const plonk_variable<value_type> &v, std::size_t row) const {
                        using var = plonk_variable<value_type>;
                        const ColumnType &c = v.type == var::witness      ? _private_table._witnesses.at(v.index) :
                                              v.type == var::public_input ? _public_table._public_inputs.at(v.index) :
                                              v.type == var::constant     ? _public_table._constants.at(v.index) :
                                                                            _public_table._selectors.at(v.index);
                        std::int64_t r = v.rotation;
                        if (v.relative) {
                            const std::int64_t n = plonk_table::rows_amount();
                            r = (r + std::int64_t(row) + n) % n;
                        }
                        return r >= 0 && std::size_t(r) < c.size() ? c[r] : value_type::zero();
                    }
                };

                template<typename FieldType>
                using plonk_assignment_table = plonk_table<FieldType, plonk_column<FieldType>>;

                template<typename FieldType,
                         typename VariableType = plonk_variable<typename FieldType::value_type>>
                class plonk_constraint : public math::expression<VariableType> {
                public:
                    using base_type = math::expression<VariableType>;
                    using variable_type = VariableType;
                    using base_type::base_type;
                    plonk_constraint() = default;
                    plonk_constraint(const base_type &e) : base_type(e) {}

                    typename VariableType::assignment_type evaluate(std::size_t row,
                                                                    const plonk_assignment_table<FieldType> &table) const {
                        return math::expression_evaluator<VariableType>(*this, [&](const VariableType &v) {
                                   return table.get_variable_value(v, row);
                               }).evaluate();
                    }
                };

                template<typename FieldType, typename ConstraintType = plonk_constraint<FieldType>>
                struct plonk_gate {
                    using constraint_type = ConstraintType;
                    std::size_t selector_index;
                    std::vector<constraint_type> constraints;

                    plonk_gate(std::size_t s, const constraint_type &c) : selector_index(s), constraints({c}) {}
                    plonk_gate(std::size_t s, const std::initializer_list<constraint_type> &c)
                        : selector_index(s), constraints(c) {}
                    plonk_gate(std::size_t s, const std::vector<constraint_type> &c) : selector_index(s), constraints(c) {}
                    bool operator==(const plonk_gate &o) const {
                        return selector_index == o.selector_index && constraints == o.constraints;
                    }
                };

                template<typename FieldType, typename VariableType = plonk_variable<typename FieldType::value_type>>
                struct plonk_lookup_constraint {
                    using variable_type = VariableType;
                    std::size_t table_id = 0;
                    std::vector<plonk_constraint<FieldType, VariableType>> lookup_input;
                };

                template<typename FieldType, typename ConstraintType = plonk_lookup_constraint<FieldType>>
                struct plonk_lookup_gate {
                    using constraint_type = ConstraintType;
                    std::size_t tag_index;
                    std::vector<constraint_type> constraints;

                    plonk_lookup_gate(std::size_t s, const constraint_type &c) : tag_index(s), constraints({c}) {}
                    plonk_lookup_gate(std::size_t s, const std::initializer_list<constraint_type> &c)
                        : tag_index(s), constraints(c) {}
                    plonk_lookup_gate(std::size_t s, const std::vector<constraint_type> &c) : tag_index(s), constraints(c) {}
                };

                template<typename FieldType>
                struct plonk_copy_constraint {
                    using variable_type = plonk_variable<typename FieldType::value_type>;
                    variable_type first, second;
                    plonk_copy_constraint() = default;
                    plonk_copy_constraint(const variable_type &a, const variable_type &b) : first(a), second(b) {}
                    bool operator==(const plonk_copy_constraint &o) const {
                        return first == o.first && second == o.second;
                    }
                };

                template<typename FieldType, typename VariableType = plonk_variable<typename FieldType::value_type>>
                struct plonk_lookup_table {
                    using constraint_type = plonk_constraint<FieldType, VariableType>;
                    std::size_t tag_index = 0, columns_number = 0;
                    std::vector<std::vector<constraint_type>> lookup_options;

                    plonk_lookup_table() = default;
                    plonk_lookup_table(std::size_t columns, std::size_t tag) : tag_index(tag), columns_number(columns) {}
                    void append_option(const std::vector<constraint_type> &option) {
                        assert(option.size() == columns_number);
                        lookup_options.push_back(option);
                    }
                };

                template<typename FieldType>
                class plonk_constraint_system {
                public:
                    using gate_type = plonk_gate<FieldType, plonk_constraint<FieldType>>;
                    using gates_container_type = std::vector<gate_type>;
                    using copy_constraints_container_type = std::vector<plonk_copy_constraint<FieldType>>;
                    using lookup_gates_container_type =
                        std::vector<plonk_lookup_gate<FieldType, plonk_lookup_constraint<FieldType>>>;
                    using lookup_table_type = plonk_lookup_table<FieldType>;
                    using lookup_tables_type = std::vector<lookup_table_type>;
                    using field_type = FieldType;
                    using variable_type = plonk_variable<typename FieldType::value_type>;
                    using public_input_sizes_type = std::vector<std::size_t>;

                protected:
                    gates_container_type _gates;
                    copy_constraints_container_type _copy_constraints;
                    lookup_gates_container_type _lookup_gates;
                    lookup_tables_type _lookup_tables;

                public:
                    plonk_constraint_system() = default;
                    plonk_constraint_system(const gates_container_type &g, const copy_constraints_container_type &c,
                                            const lookup_gates_container_type &l = {}, const lookup_tables_type &t = {})
                        : _gates(g), _copy_constraints(c), _lookup_gates(l), _lookup_tables(t) {}
                    virtual ~plonk_constraint_system() = default;
                    std::size_t num_gates() const {
                        return _gates.size();
                    }
                    std::size_t num_lookup_gates() const {
                        return _lookup_gates.size();
                    }
                    std::size_t num_lookup_tables() const {
                        return _lookup_tables.size();
                    }
                    const gates_container_type &gates() const {
                        return _gates;
                    }
                    const copy_constraints_container_type &copy_constraints() const {
                        return _copy_constraints;
                    }
                    copy_constraints_container_type &mutable_copy_constraints() {
                        return _copy_constraints;
                    }
                    const lookup_gates_container_type &lookup_gates() const {
                        return _lookup_gates;
                    }
                    const lookup_table_type &lookup_table(std::size_t i) const {
                        return _lookup_tables[i];
                    }
                    const lookup_tables_type &lookup_tables() const {
                        return _lookup_tables;
                    }
                    void add_lookup_table(const lookup_table_type &t) {
                        _lookup_tables.push_back(t);
                    }
                };

                struct lookup_subtable_definition {
                    std::vector<std::size_t> column_indices;
                    std::size_t begin, end;
                };

                template<typename FieldType>
                class lookup_table_definition {
                protected:
                    std::vector<std::vector<typename FieldType::value_type>> _table;

                public:
                    std::string table_name;
                    std::map<std::string, lookup_subtable_definition> subtables;

                    lookup_table_definition(const std::string &name) : table_name(name) {}
                    virtual ~lookup_table_definition() = default;
                    virtual void generate() = 0;
                    virtual std::size_t get_columns_number() = 0;
                    virtual std::size_t get_rows_number() = 0;
                    const std::vector<std::vector<typename FieldType::value_type>> &get_table() {
                        if (_table.empty()) {
                            generate();
                        }
                        return _table;
                    }
                };

                template<typename FieldType>
                class filled_lookup_table_definition : public lookup_table_definition<FieldType> {
                public:
                    filled_lookup_table_definition(lookup_table_definition<FieldType> &other)
                        : lookup_table_definition<FieldType>(other.table_name) {
                        this->_table = other.get_table();
                    }
                    void generate() override {}
                    std::size_t get_columns_number() override {
                        return this->_table.size();
                    }
                    std::size_t get_rows_number() override {
                        return this->_table[0].size();
                    }
                };

                template<typename FieldType>
                class dynamic_table_definition {
                    bool defined = false;

                public:
                    std::string table_name;
                    plonk_lookup_table<FieldType> lookup_table;
                    std::size_t selector_id = 0;

                    dynamic_table_definition(const std::string &name) : table_name(name) {}
                    bool is_defined() const {
                        return defined;
                    }
                    void define(const plonk_lookup_table<FieldType> &t) {
                        lookup_table = t;
                        defined = true;
                    }
                };

                // Places lookup tables into constant columns below the used rows, one constant column group per table chunk.
                // Tables get ids in the order of their reserved indices.
                template<typename FieldType, typename Indices, typename Tables, typename DynamicTables, typename Circuit,
                         typename Assignment>
                std::size_t pack_lookup_tables_horizontal(const Indices &indices, const Tables &tables,
                                                          const DynamicTables &dynamic_tables, Circuit &bp,
                                                          Assignment &assignment,
                                                          const std::vector<std::size_t> &constant_columns,
                                                          std::size_t cur_selector_id, std::size_t usable_rows_amount,
                                                          std::size_t max_usable_rows = 524288) {
                    using var = plonk_variable<typename FieldType::value_type>;
                    using column = plonk_column<FieldType>;
                    std::size_t row = usable_rows_amount, last = usable_rows_amount;
                    std::map<std::string, std::pair<std::size_t, std::size_t>> place;    // first row, selector
                    for (const auto &entry : tables) {
                        const auto &t = entry.second->get_table();
                        assert(t.size() <= constant_columns.size());
                        const std::size_t n = t.at(0).size();
                        for (std::size_t c = 0; c < constant_columns.size(); c++) {
                            column content = assignment.public_table().constant(constant_columns[c]);
                            content.resize(std::max(content.size(), row + n));
                            if (c < t.size()) {
                                std::copy(t[c].begin(), t[c].end(), content.begin() + row);
                            }
                            assignment.fill_constant(constant_columns[c], content);
                        }
                        place[entry.first] = {row, n};
                        row += n;
                        last = row;
                    }
                    std::vector<plonk_lookup_table<FieldType>> result(indices.size());
                    for (const auto &entry : indices) {
                        const std::string name = entry.first;
                        const std::size_t id = entry.second;
                        if (dynamic_tables.find(name) != dynamic_tables.end()) {
                            result.at(id - 1) = dynamic_tables.at(name)->lookup_table;
                            continue;
                        }
                        const std::string table_name = name.substr(0, name.find("/"));
                        const std::string subtable_name = name.substr(name.find("/") + 1);
                        const auto &sub = tables.at(table_name)->subtables.at(subtable_name);
                        plonk_lookup_table<FieldType> t(sub.column_indices.size(), cur_selector_id);
                        column selector(place[table_name].first + place[table_name].second);
                        for (std::size_t r = sub.begin; r <= sub.end && r < place[table_name].second; r++) {
                            selector[place[table_name].first + r] = FieldType::value_type::one();
                        }
                        assignment.fill_selector(cur_selector_id, selector);
                        std::vector<plonk_constraint<FieldType>> option;
                        for (std::size_t c : sub.column_indices) {
                            option.push_back(var(constant_columns[c], 0, true, var::constant));
                        }
                        t.append_option(option);
                        result.at(id - 1) = t;
                        cur_selector_id++;
                    }
                    for (const auto &t : result) {
                        bp.add_lookup_table(t);
                    }
                    return last;
                }
                template<typename Indices, typename Tables, typename DynamicTables, typename Circuit, typename Assignment>
                std::size_t pack_lookup_tables_horizontal(const Indices &indices, const Tables &tables,
                                                          const DynamicTables &dynamic_tables, Circuit &bp,
                                                          Assignment &assignment,
                                                          const std::vector<std::size_t> &constant_columns,
                                                          std::size_t cur_selector_id, std::size_t usable_rows_amount,
                                                          std::size_t max_usable_rows = 524288) {
                    return pack_lookup_tables_horizontal<typename Circuit::blueprint_field_type>(
                        indices, tables, dynamic_tables, bp, assignment, constant_columns, cur_selector_id,
                        usable_rows_amount, max_usable_rows);
                }

                template<typename FieldType, typename ColumnType>
                std::size_t basic_padding(plonk_table<FieldType, ColumnType> &table) {
                    std::size_t n = table.rows_amount(), padded = 1;
                    while (padded < n || padded < 8) {
                        padded *= 2;
                    }
                    table.resize_columns(padded);
                    return padded;
                }
            }    // namespace snark
        }    // namespace zk
    }    // namespace crypto3
}    // namespace nil

namespace std {
    template<typename A>
    struct hash<nil::crypto3::zk::snark::plonk_variable<A>> {
        size_t operator()(const nil::crypto3::zk::snark::plonk_variable<A> &v) const {
            size_t h = v.index;
            h = h * 1000003 + static_cast<size_t>(static_cast<std::int64_t>(v.rotation));
            h = h * 1000003 + static_cast<size_t>(v.type) * 2 + v.relative;
            return h;
        }
    };
}    // namespace std
