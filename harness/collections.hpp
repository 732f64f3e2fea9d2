// Test collections: two built on the mixin, one hand-written; plus models.
#pragma once
#include "anyval.hpp"
#include "NeoFOAM/core/database/collection.hpp"
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/document.hpp"

namespace TC
{
using namespace AV;
using NeoFOAM::Collection;
using NeoFOAM::Database;
using NeoFOAM::Dictionary;
using NeoFOAM::Document;

template<int N>
class Doc
{
public:

    Doc() : doc_() {}
    explicit Doc(const Document& d) : doc_(d) {}
    Document& doc() { return doc_; }
    const Document& doc() const { return doc_; }
    std::string id() const { return doc_.id(); }
    static std::string typeName() { return N == 0 ? "DocA" : "DocB"; }

private:

    Document doc_;
};

template<int N>
class Mixed : public NeoFOAM::CollectionMixin<Doc<N>>
{
public:

    using Base = NeoFOAM::CollectionMixin<Doc<N>>;
    Mixed(Database& db, std::string name) : Base(db, name), tracked(1) {}
    Mixed(Mixed&&) = default;
    bool contains(const std::string& id) const { return this->docs_.count(id) != 0; }
    std::string insert(const Document& d)
    {
        std::string id = d.id();
        this->docs_.emplace(id, Doc<N>(d));
        return id;
    }
    bool erase(const std::string& id) { return this->docs_.erase(id) > 0; }
    Tracked tracked;
};
using MixA = Mixed<0>;
using MixB = Mixed<1>;

// satisfies the interface without the mixin
class Own
{
public:

    Own(Database& db, std::string name) : db_(&db), name_(std::move(name)), tracked(2) {}
    Own(Own&&) = default;
    Document& doc(const std::string& id) { return docs_.at(id); }
    const Document& doc(const std::string& id) const { return docs_.at(id); }
    std::vector<std::string> find(const std::function<bool(const Document&)>& p) const
    {
        std::vector<std::string> r;
        for (auto& [k, d] : docs_)
            if (p(d)) r.push_back(k);
        return r;
    }
    std::size_t size() const { return docs_.size(); }
    std::string type() const { return "Own of " + name_; }
    std::string name() const { return name_; }
    Database& db() { return *db_; }
    const Database& db() const { return *db_; }
    std::string insert(const Document& d)
    {
        docs_.emplace(d.id(), d);
        return d.id();
    }
    bool erase(const std::string& id) { return docs_.erase(id) > 0; }

private:

    std::map<std::string, Document> docs_;
    Database* db_;
    std::string name_;

public:

    Tracked tracked;
};

template<typename T>
std::string typeOf(const std::string& name)
{
    return std::is_same_v<T, MixA> ? "DocA" : std::is_same_v<T, MixB> ? "DocB" : "Own of " + name;
}
}
