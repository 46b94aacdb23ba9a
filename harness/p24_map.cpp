// Resolves identifiers (one per line on the standard input) with the client's map loader.
#include "hv.hpp"
#include "tracepoint_map.hpp"
#include <iostream>

int main(int argc, char** argv)
{
    HawkTracer::client::TracepointMap m;
    if (argc < 2) return 2;
    m.load_maps(argv[1]);
    uint64_t id;
    while (std::cin >> id)
    {
        auto i = m.get_label_info(id);
        std::cout << id << "\t" << i.category << "\t" << i.label << "\n";
    }
    std::cout << "END\n";
    return 0;
}
