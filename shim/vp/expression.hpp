#pragma once

#include <cstdint>
#include "fields.hpp"
#include <functional>
#include <initializer_list>
#include <ostream>
#include <set>
#include <unordered_map>
#include <vector>

#include <boost/variant.hpp>
#include <boost/variant/recursive_wrapper.hpp>
#include <boost/variant/static_visitor.hpp>

namespace nil {
    namespace crypto3 {
        namespace math {
            template<typename VariableType>
            class term;
            template<typename VariableType>
            class pow_operation;
            template<typename VariableType>
            class binary_arithmetic_operation;

            enum class ArithmeticOperator : std::uint8_t { ADD = 0, SUB = 1, MULT = 2 };

            template<typename VariableType>
            class expression {
            public:
                using variable_type = VariableType;
                using assignment_type = typename VariableType::assignment_type;
                using term_type = term<VariableType>;
                using pow_operation_type = pow_operation<VariableType>;
                using binary_arithmetic_operation_type = binary_arithmetic_operation<VariableType>;
                using expr_type = boost::variant<boost::recursive_wrapper<term_type>,
                                                 boost::recursive_wrapper<pow_operation_type>,
                                                 boost::recursive_wrapper<binary_arithmetic_operation_type>>;

            private:
                expr_type expr;

            public:
                expression() : expr(term_type(assignment_type::zero())) {}
                expression(const VariableType &v) : expr(term_type(v)) {}
                expression(const assignment_type &c) : expr(term_type(c)) {}
                template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>>
                expression(T c) : expr(term_type(assignment_type(c))) {}
                template<unsigned B>
                expression(const boost::multiprecision::vp_uint<B> &c) : expr(term_type(assignment_type(c))) {}
                expression(const term_type &t) : expr(t) {}
                expression(const pow_operation_type &p) : expr(p) {}
                expression(const binary_arithmetic_operation_type &b) : expr(b) {}

                const expr_type &get_expr() const {
                    return expr;
                }
                expr_type &get_expr() {
                    return expr;
                }
                bool is_empty() const {
                    const term_type *t = boost::get<term_type>(&expr);
                    return t && t->is_zero();
                }
                expression pow(std::size_t p) const {
                    return pow_operation_type(*this, p);
                }
                expression operator-() const {
                    return binary_arithmetic_operation_type(term_type(assignment_type::zero()), *this,
                                                            ArithmeticOperator::SUB);
                }
                expression &operator+=(const expression &o) {
                    return *this = *this + o;
                }
                expression &operator-=(const expression &o) {
                    return *this = *this - o;
                }
                expression &operator*=(const expression &o) {
                    return *this = *this * o;
                }
                friend expression operator+(const expression &a, const expression &b) {
                    return binary_arithmetic_operation_type(a, b, ArithmeticOperator::ADD);
                }
                friend expression operator-(const expression &a, const expression &b) {
                    return binary_arithmetic_operation_type(a, b, ArithmeticOperator::SUB);
                }
                friend expression operator*(const expression &a, const expression &b) {
                    return binary_arithmetic_operation_type(a, b, ArithmeticOperator::MULT);
                }
                bool operator==(const expression &o) const {
                    return expr == o.expr;
                }
                bool operator!=(const expression &o) const {
                    return !(*this == o);
                }
                friend std::ostream &operator<<(std::ostream &os, const expression &e) {
                    return os << e.expr;
                }
            };

            // coeff * product of variables
            template<typename VariableType>
            class term {
            public:
                using variable_type = VariableType;
                using assignment_type = typename VariableType::assignment_type;

            private:
                std::vector<VariableType> vars;
                assignment_type coeff;

            public:
                term() : coeff(assignment_type::zero()) {}
                term(const VariableType &v) : vars({v}), coeff(assignment_type::one()) {}
                term(const assignment_type &c) : coeff(c) {}
                term(const std::vector<VariableType> &v, const assignment_type &c) : vars(v), coeff(c) {}
                term(const std::vector<VariableType> &v) : vars(v), coeff(assignment_type::one()) {}
                bool is_zero() const {
                    return coeff.is_zero();
                }
                const std::vector<VariableType> &get_vars() const {
                    return vars;
                }
                const assignment_type &get_coeff() const {
                    return coeff;
                }
                bool operator==(const term &o) const {
                    return coeff == o.coeff && vars == o.vars;
                }
                friend std::ostream &operator<<(std::ostream &os, const term &t) {
                    os << t.coeff;
                    for (const auto &v : t.vars) {
                        os << " * " << v;
                    }
                    return os;
                }
            };

            template<typename VariableType>
            class pow_operation {
                expression<VariableType> base;
                std::size_t power;

            public:
                pow_operation(const expression<VariableType> &e, std::size_t p) : base(e), power(p) {}
                const expression<VariableType> &get_expr() const {
                    return base;
                }
                std::size_t get_power() const {
                    return power;
                }
                bool operator==(const pow_operation &o) const {
                    return power == o.power && base == o.base;
                }
                friend std::ostream &operator<<(std::ostream &os, const pow_operation &p) {
                    return os << "(" << p.base << ")^" << p.power;
                }
            };

            template<typename VariableType>
            class binary_arithmetic_operation {
                expression<VariableType> left, right;
                ArithmeticOperator op;

            public:
                using ArithmeticOperatorType = ArithmeticOperator;
                binary_arithmetic_operation(const expression<VariableType> &l, const expression<VariableType> &r,
                                            ArithmeticOperator o)
                    : left(l), right(r), op(o) {}
                const expression<VariableType> &get_expr_left() const {
                    return left;
                }
                const expression<VariableType> &get_expr_right() const {
                    return right;
                }
                ArithmeticOperator get_op() const {
                    return op;
                }
                bool operator==(const binary_arithmetic_operation &o) const {
                    return op == o.op && left == o.left && right == o.right;
                }
                friend std::ostream &operator<<(std::ostream &os, const binary_arithmetic_operation &b) {
                    static const char *names[] = {" + ", " - ", " * "};
                    return os << "(" << b.left << names[static_cast<int>(b.op)] << b.right << ")";
                }
            };

            template<typename VariableType>
            class expression_evaluator : public boost::static_visitor<typename VariableType::assignment_type> {
            public:
                using value_type = typename VariableType::assignment_type;

            private:
                const expression<VariableType> &expr;
                std::function<value_type(const VariableType &)> get_value;

            public:
                template<typename F>
                expression_evaluator(const expression<VariableType> &e, const F &f) : expr(e), get_value(f) {}

                value_type evaluate() {
                    return boost::apply_visitor(*this, expr.get_expr());
                }
                value_type operator()(const term<VariableType> &t) {
                    value_type r = t.get_coeff();
                    for (const auto &v : t.get_vars()) {
                        r *= get_value(v);
                    }
                    return r;
                }
                value_type operator()(const pow_operation<VariableType> &p) {
                    return boost::apply_visitor(*this, p.get_expr().get_expr()).pow(p.get_power());
                }
                value_type operator()(const binary_arithmetic_operation<VariableType> &b) {
                    const value_type x = boost::apply_visitor(*this, b.get_expr_left().get_expr());
                    const value_type y = boost::apply_visitor(*this, b.get_expr_right().get_expr());
                    switch (b.get_op()) {
                        case ArithmeticOperator::ADD:
                            return x + y;
                        case ArithmeticOperator::SUB:
                            return x - y;
                        default:
                            return x * y;
                    }
                }
            };

            template<typename VariableType>
            class expression_for_each_variable_visitor : public boost::static_visitor<void> {
                std::function<void(const VariableType &)> callback;

            public:
                expression_for_each_variable_visitor(std::function<void(const VariableType &)> f) : callback(f) {}
                void visit(const expression<VariableType> &e) {
                    boost::apply_visitor(*this, e.get_expr());
                }
                void operator()(const term<VariableType> &t) {
                    for (const auto &v : t.get_vars()) {
                        callback(v);
                    }
                }
                void operator()(const pow_operation<VariableType> &p) {
                    boost::apply_visitor(*this, p.get_expr().get_expr());
                }
                void operator()(const binary_arithmetic_operation<VariableType> &b) {
                    boost::apply_visitor(*this, b.get_expr_left().get_expr());
                    boost::apply_visitor(*this, b.get_expr_right().get_expr());
                }
            };

            template<typename VariableType>
            class expression_max_degree_visitor : public boost::static_visitor<std::uint32_t> {
            public:
                std::uint32_t compute_max_degree(const expression<VariableType> &e) {
                    return boost::apply_visitor(*this, e.get_expr());
                }
                std::uint32_t operator()(const term<VariableType> &t) {
                    return t.get_vars().size();
                }
                std::uint32_t operator()(const pow_operation<VariableType> &p) {
                    return boost::apply_visitor(*this, p.get_expr().get_expr()) * p.get_power();
                }
                std::uint32_t operator()(const binary_arithmetic_operation<VariableType> &b) {
                    const std::uint32_t x = boost::apply_visitor(*this, b.get_expr_left().get_expr());
                    const std::uint32_t y = boost::apply_visitor(*this, b.get_expr_right().get_expr());
                    return b.get_op() == ArithmeticOperator::MULT ? x + y : std::max(x, y);
                }
            };
        }    // namespace math
    }    // namespace crypto3
}    // namespace nil
