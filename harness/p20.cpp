// Timestamps
#include "graphs.hpp"
#include <RenderGraph/FramePassTimer.hpp>
#include <cmath>
using namespace h;
CASE( timers, 500 )
{
	auto props = defaultProps();
	props.limits.timestampPeriod = rng.pick( { 1.0f, 2.0f, 0.5f, 52.08f } );
	Dev dev{ false, defaultMemory(), props };
	cx.note( "period", props.limits.timestampPeriod );
	uint32_t n = rng.range( 1, 4 ), off = rng.below( 100 ) * 4, base = off;
	bool own = rng.chance( 1, 4 );
	cx.note( "own", own ); cx.note( "timers", n );
	std::vector< std::unique_ptr< crg::FramePassTimer > > ts;
	for ( uint32_t k = 0; k < n; ++k )
		ts.push_back( own ? std::make_unique< crg::FramePassTimer >( dev.ctx, "t", crg::TimerScope::ePass ) : std::make_unique< crg::FramePassTimer >( dev.ctx, "t", crg::TimerScope::ePass, VkQueryPool( 0x88 ), off ) );
	if ( own ) { cx.eq( named( "vkCreateQueryPool" ).size(), size_t( n ), "one pool each" ); for ( auto & p : named( "vkCreateQueryPool" ) ) { cx.require( p.get( "count" ) >= 4, "room for the queries" ); cx.eq( p.get( "type" ), VK_QUERY_TYPE_TIMESTAMP, "query type" ); } }
	else cx.eq( off, base + 4 * n, "queries reserved" );
	std::set< uint64_t > last;
	std::vector< uint64_t > cur( n, 0 ), pool( n, 0 ); std::vector< int > st( n, 0 ); // bit 0 written, bit 1 submitted
	std::vector< std::pair< int, int > > pairs( n );          // state bits of (current, other)
	std::vector< uint64_t > other( n, 0 ); std::vector< bool > begun( n, false );
	for ( uint32_t k = 0; k < 30; ++k )
	{
		uint32_t t = rng.below( n );
		uint64_t lo = own ? 0 : base + 4 * t, hi = lo + 4;
		world().trace.clear();
		switch ( rng.below( 4 ) )
		{
		case 0:
		{
			ts[t]->beginPass( VkCommandBuffer( 0x55 ) );
			cx.eq( fns().size(), size_t( 2 ), "commands of the beginning" );
			auto & r = world().trace[0], & w = world().trace[1];
			cx.eq( r.fn, std::string( "vkCmdResetQueryPool" ), "first" ); cx.eq( w.fn, std::string( "vkCmdWriteTimestamp" ), "second" );
			cx.eq( r.get( "count" ), 2u, "queries reset" ); cx.require( r.get( "first" ) >= lo && r.get( "first" ) + 2 <= hi, "own queries reset" );
			cx.eq( w.get( "query" ), r.get( "first" ), "query of the start" );
			if ( begun[t] ) cx.require( r.get( "first" ) != cur[t], "the pairs alternate" );
			cur[t] = r.get( "first" ); pool[t] = r.get( "pool" ); begun[t] = true; std::swap( pairs[t].first, pairs[t].second );
			break;
		}
		case 1:
			if ( !begun[t] ) break;
			ts[t]->endPass( VkCommandBuffer( 0x55 ) );
			cx.eq( fns().size(), size_t( 1 ), "commands of the end" );
			cx.eq( world().trace[0].get( "query" ), cur[t] + 1, "query of the end" ); cx.eq( world().trace[0].get( "pool" ), pool[t], "pool" );
			pairs[t].first |= 1;
			break;
		case 2: ts[t]->notifyPassRender(); pairs[t].first |= 2; break;
		case 3:
		{
			bool e = rng.flip();
			world().queryValues[0] = e ? ( ~0ull - rng.below( 50 ) ) : rng.next() & 0xFFFF; world().queryValues[1] = world().queryValues[0] + rng.below( 100000 );
			ts[t]->retrieveGpuTime();
			auto q = named( "vkGetQueryPoolResults" );
			bool avail = pairs[t].first == 3;
			cx.eq( q.size(), size_t( avail ? 1 : 0 ), "results read" );
			if ( avail )
			{
				cx.eq( q[0].get( "first" ), cur[t], "queries read" ); cx.eq( q[0].get( "count" ), 2u, "count read" ); cx.eq( q[0].get( "pool" ), pool[t], "pool read" ); cx.eq( q[0].get( "stride" ), 8u, "stride" );
				cx.eq( q[0].get( "flags" ), uint64_t( VK_QUERY_RESULT_WAIT_BIT | VK_QUERY_RESULT_64_BIT ), "flags" );
				double want = double( world().queryValues[1] - world().queryValues[0] ) * props.limits.timestampPeriod;
				cx.require( std::fabs( double( ts[t]->getGpuTime().count() ) - want ) <= 1.0 + want * 1e-6, "time in nanoseconds" );
				pairs[t].first = 0;
			}
			else cx.eq( ts[t]->getGpuTime().count(), 0, "no time without results" );
			break;
		}
		}
	}
	world().trace.clear();
	ts.clear();
	cx.eq( named( "vkDestroyQueryPool" ).size(), size_t( own ? n : 0 ), "pools destroyed" );
	cx.eq( world().errors.size(), size_t( 0 ), "misuse" );
}
CASE( graph_queries, 100 )
{
	Dev dev;
	crg::ResourceHandler handler;
	crg::FrameGraph g{ handler, "g" };
	uint32_t np = rng.range( 1, 6 );
	cx.note( "passes", np );
	std::vector< std::unique_ptr< PassCfg > > cfgs;
	auto v = view2D( g, "v", img2D( g, "i" ) );
	for ( uint32_t k = 0; k < np; ++k )
	{
		cfgs.push_back( std::make_unique< PassCfg >() );
		auto & p = g.createPass( "p" + std::to_string( k ), runWith( *cfgs.back(), k ) );
		if ( k == 0 ) p.addOutputColourView( v ); else p.addInOutColourView( v );
	}
	auto rg = g.compile( dev.ctx );
	auto q = named( "vkCreateQueryPool" );
	cx.eq( q.size(), size_t( 1 ), "query pools" );
	auto room = q[0].get( "count" );
	world().trace.clear();
	for ( uint32_t r = 0; r < 2; ++r ) rg->run( VkQueue( 0x99 ) );
	std::map< uint64_t, uint32_t > written;
	for ( auto & w : named( "vkCmdWriteTimestamp" ) ) { cx.require( w.get( "query" ) < room, "the query is in the pool" ); ++written[w.get( "query" )]; }
	cx.eq( written.size(), size_t( ( np + 1 ) * 4 ), "queries of the graph and its passes" );
	for ( auto & w : written ) cx.eq( w.second, 1u, "times a query is written in two runs" );
}
