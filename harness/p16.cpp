// Implicit transitions of disabled passes
#include "graphs.hpp"
using namespace h;
CASE( histories, 600 )
{
	Dev dev;
	crg::ResourceHandler handler;
	crg::FrameGraph g{ handler, "g" };
	uint32_t n = rng.range( 1, 4 );
	std::vector< PassCfg > cfg( n );
	std::vector< crg::ImageViewId > views;
	auto img = img2D( g, "i", VK_FORMAT_R8G8B8A8_UNORM, 4, 1 );
	for ( uint32_t k = 0; k < 4; ++k ) views.push_back( view2D( g, "v" + std::to_string( k ), img, k ) );
	for ( uint32_t k = 0; k < n; ++k )
	{
		cfg[k].enabled = rng.flip();
		g.createPass( "p" + std::to_string( k ), runWith( cfg[k], k ) ).addOutputColourView( view2D( g, "o" + std::to_string( k ), img2D( g, "oi" + std::to_string( k ) ) ) );
	}
	auto rg = g.compile( dev.ctx );
	crg::ContextResourcesCache cache{ handler, dev.ctx };
	crg::RecordContext rc{ cache };
	struct Reg { uint32_t pass, view; uint64_t id; };
	std::vector< Reg > regs;
	for ( uint64_t s = 0; s < 20; ++s )
	{
		world().trace.clear();
		auto cb = VkCommandBuffer( uint64_t( 0x500 + s ) );
		switch ( rng.below( 3 ) )
		{
		case 0:
		{
			Reg r{ rng.below( n ), rng.below( 4 ), s };
			bool nested = rng.chance( 1, 4 );
			cx.in << "[register pass" << r.pass << " view" << r.view << ( nested ? " nested" : "" ) << "] ";
			crg::RecordContext::ImplicitAction a = [r, nested, &views]( crg::RecordContext & c, VkCommandBuffer b, uint32_t i ){ rec( "implicit" )( "id", r.id )( "cb", H( b ) )( "index", i ); if ( nested ) c.runImplicitTransition( b, i, views[r.view] ); };
			if ( nested ) { bool other = false; for ( auto & o : regs ) other = other || o.view == r.view; if ( other ) break; for ( auto & o : regs ) (void)o; }
			if ( rng.flip() ) rc.registerImplicitTransition( *cfg[r.pass].pass, views[r.view], a ); else rc.registerImplicitTransition( crg::RecordContext::ImplicitTransition{ cfg[r.pass].pass, views[r.view], a } );
			regs.push_back( r );
			if ( nested )
			{
				// it must be used up before it runs
				bool on = cfg[r.pass].enabled;
				rc.runImplicitTransition( cb, 3, views[r.view] );
				cx.eq( named( "implicit" ).size(), size_t( on ? 0 : 1 ), "runs of an action that asks for its own view" );
				regs.pop_back();
			}
			else cx.eq( named( "implicit" ).size(), size_t( 0 ), "runs while registering" );
			break;
		}
		case 1: { auto k = rng.below( n ); cfg[k].enabled = !cfg[k].enabled; cx.in << "[toggle" << k << "] "; break; }
		default:
		{
			auto v = rng.below( 4 ), i = rng.below( 5 );
			cx.in << "[use" << v << "] ";
			rc.runImplicitTransition( cb, i, views[v] );
			std::vector< Rec > e;
			for ( size_t k = 0; k < regs.size(); ++k ) if ( regs[k].view == v )
			{
				if ( !cfg[regs[k].pass].enabled ) { Rec r{ "implicit", {} }; r( "id", regs[k].id )( "cb", H( cb ) )( "index", i ); e.push_back( r ); }
				regs.erase( regs.begin() + k );
				break;
			}
			cx.eq( world().trace, e, "what runs" );
			break;
		}
		}
	}
}
