// Order of the passes of a graph
#include "graphs.hpp"
using namespace h;
CASE( orders, 400 )
{
	Dev dev;
	crg::ResourceHandler handler;
	crg::FrameGraph g{ handler, "g" };
	uint32_t n = rng.range( 1, 12 );
	std::vector< PassCfg > cfg( n );
	std::vector< crg::FramePass * > passes( n );
	std::vector< crg::FramePassGroup * > groups{ &g.getDefaultGroup() };
	std::vector< uint32_t > made;
	for ( uint32_t k = 0; k < n; ++k )
	{
		if ( rng.chance( 1, 3 ) ) groups.push_back( &groups[rng.below( uint32_t( groups.size() ) )]->createPassGroup( "g" + std::to_string( k ) ) );
		cfg[k].enabled = rng.chance( 4, 5 );
		auto inner = runWith( cfg[k], k );
		passes[k] = &groups[rng.below( uint32_t( groups.size() ) )]->createPass( "p" + std::to_string( k )
			, [&made, k, inner]( crg::FramePass const & p, crg::GraphContext & c, crg::RunnableGraph & r ){ made.push_back( k ); return inner( p, c, r ); } );
		passes[k]->addOutputColourView( view2D( g, "o" + std::to_string( k ), img2D( g, "oi" + std::to_string( k ) ) ) );
	}
	// dependencies follow a hidden order, unrelated to the order of creation
	std::vector< uint32_t > rank( n );
	for ( uint32_t k = 0; k < n; ++k ) rank[k] = k;
	for ( uint32_t k = n; k > 1; --k ) std::swap( rank[k - 1], rank[rng.below( k )] );
	std::vector< std::pair< uint32_t, uint32_t > > deps;
	for ( uint32_t a = 0; a < n; ++a )
	{
		crg::FramePassArray batch;
		for ( uint32_t b = 0; b < n; ++b ) if ( rank[b] < rank[a] && rng.chance( 1, 3 ) )
		{
			deps.push_back( { a, b } );
			cx.in << "p" << a << ">p" << b << " ";
			if ( rng.flip() ) passes[a]->addDependency( *passes[b] ); else batch.push_back( passes[b] );
		}
		passes[a]->addDependencies( batch );
	}
	world().trace.clear();
	auto rg = g.compile( dev.ctx );
	auto order = [&]( char const * fn )
	{
		std::vector< uint32_t > r;
		for ( auto & c : world().trace ) if ( c.fn == fn ) r.push_back( uint32_t( c.get( "pass" ) ) );
		return r;
	};
	auto check = [&]( std::vector< uint32_t > const & o, bool all, char const * what )
	{
		std::vector< int > at( n, -1 );
		for ( size_t k = 0; k < o.size(); ++k ) { cx.eq( at[o[k]], -1, std::string( what ) + ": earlier places of the pass" ); at[o[k]] = int( k ); }
		for ( uint32_t k = 0; k < n; ++k ) cx.eq( at[k] >= 0, all || cfg[k].enabled, std::string( what ) + ": has a place" );
		for ( auto & d : deps ) if ( at[d.first] >= 0 && at[d.second] >= 0 ) cx.eq( at[d.second] < at[d.first], true, std::string( what ) + ": p" + std::to_string( d.second ) + " comes before p" + std::to_string( d.first ) );
	};
	check( made, true, "creation" );
	check( order( "init" ), false, "initialisation" );
	world().trace.clear();
	rg->record();
	check( order( "record" ), false, "recording" );
	auto rec = order( "record" );
	std::vector< uint32_t > exp;
	for ( auto k : made ) if ( cfg[k].enabled ) exp.push_back( k );
	cx.eq( rec == exp, true, "recorded in the order of creation" );
}
