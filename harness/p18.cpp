// What a graph submits
#include "graphs.hpp"
using namespace h;
CASE( submissions, 300 )
{
	Dev dev;
	crg::ResourceHandler handler;
	uint32_t np = rng.range( 0, 4 );
	cx.note( "passes", np );
	std::vector< std::unique_ptr< PassCfg > > cfgs;
	crg::FrameGraph g{ handler, "g" };
	auto img = img2D( g, "i" );
	auto v = view2D( g, "v", img );
	for ( uint32_t k = 0; k < np; ++k )
	{
		cfgs.push_back( std::make_unique< PassCfg >() );
		auto & c = *cfgs.back();
		c.ru.maxPassCount = rng.range( 1, 3 );
		c.index = rng.below( c.ru.maxPassCount );
		c.enabled = rng.chance( 4, 5 );
		c.state = { VkAccessFlags( 1u << rng.below( 8 ) ), VkPipelineStageFlags( 1u << rng.below( 8 ) ) };
		auto & p = g.createPass( "p" + std::to_string( k ), runWith( c, k ) );
		if ( k == 0 ) p.addOutputColourView( v ); else p.addInOutColourView( v );
		cx.note( "enabled", c.enabled ); cx.note( "index", c.index );
	}
	if ( !np ) g.createPass( "none", noRun() );
	if ( !np ) return;
	auto rg = g.compile( dev.ctx );
	std::vector< VkSemaphore > sems; for ( uint64_t k = 0; k < 4; ++k ) sems.push_back( VkSemaphore( 0x500 + k ) );
	VkCommandBuffer cb{}; VkFence fence = rg->getFence(); VkSemaphore own{};
	uint32_t runs = rng.range( 1, 3 );
	uint32_t deletions = 0;
	for ( uint32_t r = 0; r < runs; ++r )
	{
		crg::SemaphoreWaitArray waits;
		uint32_t form = rng.below( 3 );
		uint32_t nw = form == 0 ? rng.range( 0, 6 ) : form == 1 ? 1 : 0;
		for ( uint32_t k = 0; k < nw; ++k ) waits.push_back( { rng.chance( 1, 5 ) ? VkSemaphore{} : rng.pick( sems ), VkPipelineStageFlags( 1u << rng.below( 16 ) ) } );
		for ( auto & w : waits ) { cx.note( "wait", H( w.semaphore ) ); cx.note( "at", w.dstStageMask ); }
		uint32_t due = 0; bool reset = false;
		if ( rng.flip() ) { ++due; dev.ctx.delQueue.push( [&]( crg::GraphContext & ){ ++deletions; reset = named( "vkResetFences" ).size() == 1 && named( "vkQueueSubmit" ).empty(); } ); }
		world().trace.clear(); deletions = 0;
		auto queue = VkQueue( 0x99 + r );
		auto res = form == 0 ? rg->run( waits, queue ) : form == 1 ? rg->run( waits[0], queue ) : rg->run( queue );
		auto q = named( "vkQueueSubmit" ), s = named( "submit" );
		cx.eq( q.size(), size_t( 1 ), "submissions" ); cx.eq( s.size(), size_t( 1 ), "batches" );
		cx.eq( q[0].get( "queue" ), H( queue ), "queue" ); cx.eq( q[0].get( "fence" ), H( fence ), "fence" );
		cx.eq( deletions, due, "deferred deletions run" ); if ( due ) cx.require( reset, "deferred deletions run once the fence was waited for, before the submission" );
		std::map< uint64_t, uint32_t > want, got;
		for ( auto & w : waits ) if ( w.semaphore ) want[H( w.semaphore )] |= w.dstStageMask;
		for ( uint64_t k = 0; k < s[0].get( "waits" ); ++k ) got[s[0].get( "w" + std::to_string( k ) )] |= uint32_t( s[0].get( "ws" + std::to_string( k ) ) );
		cx.eq( s[0].get( "waits" ), uint64_t( want.size() ), "semaphores waited for" );
		for ( auto & w : want ) cx.eq( got[w.first] , w.second, "stages at which the semaphore is waited for" );
		cx.eq( s[0].get( "cbs" ), uint64_t( 1 ), "command buffers" ); cx.eq( s[0].get( "signals" ), uint64_t( 1 ), "semaphores signaled" );
		if ( r == 0 ) { cb = VkCommandBuffer( s[0].get( "cb0" ) ); own = VkSemaphore( s[0].get( "s0" ) ); }
		cx.eq( s[0].get( "cb0" ), H( cb ), "command buffer" ); cx.eq( s[0].get( "s0" ), H( own ), "semaphore signaled" );
		cx.eq( res.size(), size_t( 1 ), "semaphores returned" ); cx.eq( res[0].semaphore, own, "semaphore returned" );
		auto b = firstOf( "vkBeginCommandBuffer" ), e = firstOf( "vkEndCommandBuffer" ), sub = firstOf( "vkQueueSubmit" ), rf = firstOf( "vkResetFences" ), w = firstOf( "vkWaitForFences" );
		cx.require( w < b && b < e && e < sub && rf < sub && e < rf, "wait, record, reset the fence, submit" );
		cx.eq( named( "vkWaitForFences" )[0].get( "fence" ), H( fence ), "fence waited for" ); cx.eq( named( "vkWaitForFences" )[0].get( "timeout" ), ~uint64_t( 0 ), "time limit" );
		uint32_t next = 0;
		for ( auto & m : named( "record" ) )
		{
			while ( next < np && !cfgs[next]->enabled ) ++next;
			cx.require( next < np, "a disabled pass is not recorded" );
			cx.eq( m.get( "pass" ), uint64_t( next ), "order of the passes" ); cx.eq( m.get( "cb" ), H( cb ), "command buffer of the pass" ); cx.eq( m.get( "index" ), cfgs[next]->index, "index recorded" );
			++next;
		}
		while ( next < np && !cfgs[next]->enabled ) ++next;
		cx.eq( next, np, "every enabled pass is recorded" );
	}
}
