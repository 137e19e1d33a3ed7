#pragma once
#include <functional>
#include <list>
#include <string>
namespace dbparser {
class DBParserJSON
{
public:
    explicit DBParserJSON(const char* path);
    void addCallbackList(std::function<void(const std::string&, const std::list<unsigned>&)> f)
    {
        list_cb.push_back(std::move(f));
    }
    void addCallbackPair(std::function<void(const std::string&, unsigned)> f)
    {
        pair_cb.push_back(std::move(f));
    }
    void parse();

private:
    std::string                                                                    path;
    std::list<std::function<void(const std::string&, const std::list<unsigned>&)>> list_cb;
    std::list<std::function<void(const std::string&, unsigned)>>                   pair_cb;
};
} // namespace dbparser
