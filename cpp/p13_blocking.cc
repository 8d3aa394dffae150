// P13: the chunk grid partitions the array and every region exactly
#include "pbt.hpp"
#include <numeric>
#include <algorithm>
#include "z5/util/blocking.hxx"

using z5::types::ShapeType;
using z5::util::Blocking;
typedef __int128 big;

static std::string str(const ShapeType & s) {
    std::string r = "(";
    for(auto x : s) r += std::to_string(x) + ",";
    return r + ")";
}

// next coordinate in row-major order; false at the end
static bool next(ShapeType & c, const ShapeType & shape) {
    for(int d = int(shape.size()) - 1; d >= 0; --d) {
        if(++c[d] < shape[d]) return true;
        c[d] = 0;
    }
    return false;
}

static std::size_t flat(const ShapeType & c, const ShapeType & shape) {
    std::size_t f = 0;
    for(std::size_t d = 0; d < shape.size(); ++d) f = f * shape[d] + c[d];
    return f;
}

static std::size_t prod(const ShapeType & s) {
    return std::accumulate(s.begin(), s.end(), std::size_t(1), std::multiplies<std::size_t>());
}

static void smallGrid(pbt::Gen & g, ShapeType & shape, ShapeType & block) {
    static const int lim[] = {0, 60, 14, 9, 6, 5};
    const int nd = g.range(1, 5);
    shape.resize(nd); block.resize(nd);
    for(int d = 0; d < nd; ++d) {
        shape[d] = g.range(1, lim[nd]);
        block[d] = g.flip(1, 6) ? g.range(1, 2 * lim[nd]) : g.range(1, shape[d]);
    }
    g.desc << "shape " << str(shape) << " block " << str(block);
}

PBT_TEST(tiling) {
    ShapeType shape, block;
    smallGrid(g, shape, block);
    const std::size_t nd = shape.size();
    Blocking b(shape, block);
    std::size_t n = 1;
    for(std::size_t d = 0; d < nd; ++d) {
        const std::size_t e = (shape[d] + block[d] - 1) / block[d];
        PBT_CHECK(b.blocksPerDimension()[d] == e, "blocks in dimension " << d);
        n *= e;
        if(shape[d] % block[d]) g.nontrivial = true;
    }
    g.label("ragged", g.nontrivial);
    PBT_CHECK(b.numberOfBlocks() == n, "number of blocks " << b.numberOfBlocks());
    PBT_CHECK(b.shape() == shape && b.blockShape() == block, "shape accessors");
    std::vector<int> hit(prod(shape), 0);
    std::set<ShapeType> coords;
    for(std::size_t id = 0; id < n; ++id) {
        ShapeType c;
        b.blockIdToBlockCoordinate(id, c);
        PBT_CHECK(coords.insert(c).second, "coordinate of id " << id << " is not unique");
        PBT_CHECK(b.blockCoordinatesToBlockId(c) == id, "id round trip of " << id);
        PBT_CHECK(b.checkBlockCoordinate(c), "valid coordinate refused");
        ShapeType b1, s1, b2, s2, b3, e3, b4, e4;
        b.getBlockBeginAndShape(id, b1, s1); b.getBlockBeginAndShape(c, b2, s2);
        b.getBlockBeginAndEnd(id, b3, e3); b.getBlockBeginAndEnd(c, b4, e4);
        PBT_CHECK(b1 == b2 && b1 == b3 && b1 == b4 && s1 == s2 && e3 == e4, "begin/shape/end disagree for block " << str(c));
        for(std::size_t d = 0; d < nd; ++d) {
            PBT_CHECK(c[d] < b.blocksPerDimension()[d], "coordinate out of range");
            PBT_CHECK(b1[d] + s1[d] == e3[d] && s1[d] >= 1 && s1[d] <= block[d] && e3[d] <= shape[d], "extent of block " << str(c));
        }
        ShapeType o(nd, 0);
        do {
            ShapeType p(nd);
            for(std::size_t d = 0; d < nd; ++d) p[d] = b1[d] + o[d];
            ++hit[flat(p, shape)];
            ShapeType back;
            b.coordinateToBlockCoordinate(p, back);
            PBT_CHECK(back == c, "coordinate " << str(p) << " maps to block " << str(back) << " not " << str(c));
        } while(next(o, s1));
    }
    for(auto h : hit) PBT_CHECK(h == 1, "an element is covered " << h << " times");
    // coordinates outside of the grid, or of another dimension, are refused
    ShapeType bad(nd);
    for(std::size_t d = 0; d < nd; ++d) bad[d] = g.draw(b.blocksPerDimension()[d]);
    const std::size_t k = g.draw(nd);
    bad[k] = b.blocksPerDimension()[k] + g.draw(3);
    PBT_CHECK(!b.checkBlockCoordinate(bad), "block " << str(bad) << " accepted");
    bad[k] = 0; bad.push_back(0);
    PBT_CHECK(!b.checkBlockCoordinate(bad), "block of wrong dimension accepted");
    bad.resize(nd - 1);
    PBT_CHECK(!b.checkBlockCoordinate(bad), "block of wrong dimension accepted");
}

PBT_TEST(regions) {
    ShapeType shape, block;
    smallGrid(g, shape, block);
    const std::size_t nd = shape.size();
    Blocking b(shape, block);
    ShapeType rb(nd), rs(nd);
    for(std::size_t d = 0; d < nd; ++d) {
        rb[d] = g.draw(shape[d]);
        rs[d] = 1 + g.draw(shape[d] - rb[d]);
    }
    g.desc << " region " << str(rb) << "+" << str(rs);
    std::vector<ShapeType> blocks;
    b.getBlocksOverlappingRoi(rb, rs, blocks);
    std::set<ShapeType> got(blocks.begin(), blocks.end()), want;
    PBT_CHECK(got.size() == blocks.size(), "a block is listed twice");
    for(std::size_t id = 0; id < b.numberOfBlocks(); ++id) {
        ShapeType c, bb, be;
        b.blockIdToBlockCoordinate(id, c);
        b.getBlockBeginAndEnd(c, bb, be);
        bool hit = true;
        for(std::size_t d = 0; d < nd; ++d) hit = hit && bb[d] < rb[d] + rs[d] && be[d] > rb[d];
        if(hit) want.insert(c);
    }
    PBT_CHECK(got == want, "overlapping blocks: " << got.size() << " reported, " << want.size() << " expected");
    g.nontrivial = want.size() > 1;
    std::vector<int> hit(prod(rs), 0);
    for(auto & c : blocks) {
        ShapeType bb, be, inRoi, sh, inBlock;
        b.getBlockBeginAndEnd(c, bb, be);
        const bool complete = b.getCoordinatesInRoi(c, rb, rs, inRoi, sh, inBlock);
        bool want_complete = true;
        for(std::size_t d = 0; d < nd; ++d) {
            const std::size_t lo = std::max(bb[d], rb[d]), hi = std::min(be[d], rb[d] + rs[d]);
            PBT_CHECK(sh[d] == hi - lo, "extent in dimension " << d << " of block " << str(c) << ": " << sh[d]);
            PBT_CHECK(inRoi[d] == lo - rb[d], "offset in region, dimension " << d << " of block " << str(c));
            PBT_CHECK(inBlock[d] == lo - bb[d], "offset in block, dimension " << d << " of block " << str(c));
            want_complete = want_complete && lo == bb[d] && hi == be[d];
        }
        PBT_CHECK(complete == want_complete, "full coverage flag of block " << str(c));
        g.label("complete", complete); g.label("partial", !complete);
        ShapeType o(nd, 0);
        do {
            ShapeType p(nd);
            for(std::size_t d = 0; d < nd; ++d) p[d] = inRoi[d] + o[d];
            ++hit[flat(p, rs)];
        } while(next(o, sh));
    }
    for(auto h : hit) PBT_CHECK(h == 1, "an element of the region is covered " << h << " times");
}

// extents far beyond 32 bit
PBT_TEST(huge) {
    const int nd = g.range(1, 4);
    ShapeType shape(nd), block(nd), rb(nd), rs(nd);
    big nblocks = 1;
    const int bits = nd == 1 ? 60 : nd == 2 ? 48 : 40;
    for(int d = 0; d < nd; ++d) {
        shape[d] = (uint64_t(1) << g.range(0, bits)) + g.draw(1000) - (g.flip() ? 1 : 0);
        if(shape[d] == 0) shape[d] = 1;
        do {
            block[d] = 1 + g.draw(std::min<uint64_t>(shape[d], uint64_t(1) << g.range(0, bits - 2)));
        } while(false);
        // the number of blocks must fit into 62 bit
        while(nblocks * ((shape[d] + block[d] - 1) / block[d]) > (big(1) << 61)) block[d] = std::min<uint64_t>(shape[d], block[d] * 4 + 1);
        nblocks *= (shape[d] + block[d] - 1) / block[d];
        // a region that touches at most a handful of blocks per dimension
        rb[d] = g.draw(shape[d]);
        if(g.flip()) rb[d] = rb[d] / block[d] * block[d];
        const uint64_t room = shape[d] - rb[d];
        const uint64_t want = g.flip() ? block[d] * (1 + g.draw(3)) : 1 + g.draw(std::min<uint64_t>(3 * block[d], uint64_t(1) << 59));
        rs[d] = std::max<uint64_t>(1, std::min(room, want));
        if(block[d] > (1ull << 31)) g.label("block>2^31");
        if(shape[d] > (1ull << 32)) g.nontrivial = true;
    }
    g.desc << "shape " << str(shape) << " block " << str(block) << " region " << str(rb) << "+" << str(rs);
    Blocking b(shape, block);
    PBT_CHECK(big(b.numberOfBlocks()) == nblocks, "number of blocks");
    // some ids
    for(int i = 0; i < 4; ++i) {
        const uint64_t id = i == 0 ? uint64_t(nblocks - 1) : g.draw(uint64_t(nblocks));
        ShapeType c, bb, be;
        b.blockIdToBlockCoordinate(id, c);
        PBT_CHECK(b.blockCoordinatesToBlockId(c) == id, "id round trip of " << id);
        PBT_CHECK(b.checkBlockCoordinate(c), "valid coordinate refused");
        b.getBlockBeginAndEnd(c, bb, be);
        for(int d = 0; d < nd; ++d) {
            PBT_CHECK(big(bb[d]) == big(c[d]) * block[d], "begin of block " << str(c));
            PBT_CHECK(big(be[d]) == std::min(big(c[d] + 1) * block[d], big(shape[d])), "end of block " << str(c));
        }
    }
    std::vector<ShapeType> blocks;
    b.getBlocksOverlappingRoi(rb, rs, blocks);
    std::size_t want = 1;
    for(int d = 0; d < nd; ++d) want *= (rb[d] + rs[d] - 1) / block[d] - rb[d] / block[d] + 1;
    PBT_CHECK(blocks.size() == want, "overlapping blocks " << blocks.size() << " expected " << want);
    g.label("multi", want > 1);
    for(auto & c : blocks) {
        ShapeType inRoi, sh, inBlock;
        const bool complete = b.getCoordinatesInRoi(c, rb, rs, inRoi, sh, inBlock);
        bool wc = true;
        for(int d = 0; d < nd; ++d) {
            const big bb = big(c[d]) * block[d], be = std::min(bb + block[d], big(shape[d]));
            const big lo = std::max(bb, big(rb[d])), hi = std::min(be, big(rb[d]) + rs[d]);
            PBT_CHECK(lo < hi, "a listed block does not intersect the region");
            PBT_CHECK(big(sh[d]) == hi - lo && big(inRoi[d]) == lo - rb[d] && big(inBlock[d]) == lo - bb,
                      "coordinates of block " << str(c) << " in dimension " << d << ": offset " << inRoi[d] << " extent " << sh[d] << " in block " << inBlock[d]);
            wc = wc && lo == bb && hi == be;
        }
        PBT_CHECK(complete == wc, "full coverage flag of block " << str(c));
    }
}

PBT_MAIN
