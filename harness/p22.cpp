// Fences, recording and re-recording
#include "graphs.hpp"
using namespace h;
CASE( fences, 500 )
{
	Dev dev;
	auto f = std::make_unique< crg::Fence >( dev.ctx, "f", VkFenceCreateInfo{ VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, nullptr, VK_FENCE_CREATE_SIGNALED_BIT } );
	auto hnd = H( VkFence( *f ) );
	cx.require( hnd != 0, "a fence is created" );
	bool waited = false;
	for ( uint32_t k = 0; k < 12; ++k )
	{
		world().trace.clear();
		switch ( rng.below( 3 ) )
		{
		case 0:
		{
			bool fail = rng.chance( 1, 3 );
			if ( fail ) { world().failAt["vkWaitForFences"] = 1; world().failWith = rng.pick( { VK_TIMEOUT, VK_ERROR_DEVICE_LOST } ); }
			uint64_t t = rng.next();
			cx.note( "wait", !fail );
			auto r = f->wait( t );
			world().failAt.clear();
			auto w = named( "vkWaitForFences" );
			cx.eq( w.size(), size_t( 1 ), "waits" ); cx.eq( w[0].get( "fence" ), hnd, "fence" ); cx.eq( w[0].get( "timeout" ), t, "time limit" );
			cx.eq( r, fail ? world().failWith : VK_SUCCESS, "outcome" );
			waited = !fail;
			break;
		}
		case 1:
		{
			cx.note( "reset", waited );
			f->reset();
			auto w = named( "vkWaitForFences" ), r = named( "vkResetFences" );
			cx.eq( w.size(), size_t( waited ? 0 : 1 ), "waits before the reset" ); cx.eq( r.size(), size_t( 1 ), "resets" ); cx.eq( r[0].get( "fence" ), hnd, "fence reset" );
			if ( !waited ) { cx.require( firstOf( "vkWaitForFences" ) < firstOf( "vkResetFences" ), "wait before reset" ); cx.eq( w[0].get( "timeout" ), ~uint64_t( 0 ), "time limit" ); }
			waited = false;
			break;
		}
		case 2:
		{
			auto n = std::make_unique< crg::Fence >( std::move( *f ) );
			f = std::move( n );
			cx.eq( world().trace.size(), size_t( 0 ), "device calls of a move" ); cx.eq( H( VkFence( *f ) ), hnd, "fence moved" );
			break;
		}
		}
	}
	f.reset();
	cx.eq( countAlive( "Fence" ), size_t( 0 ), "fences left" ); cx.eq( world().errors.size(), size_t( 0 ), "misuse" );
}
CASE( rerecord, 300 )
{
	Dev dev;
	crg::ResourceHandler handler;
	crg::FrameGraph g{ handler, "g" };
	PassCfg c;
	c.ru.maxPassCount = rng.range( 1, 4 );
	c.ru.resettable = true;
	c.index = rng.below( c.ru.maxPassCount + 1 );
	if ( c.index == c.ru.maxPassCount ) c.index = 0;
	cx.note( "instances", c.ru.maxPassCount );
	auto v = view2D( g, "v", img2D( g, "i" ) );
	g.createPass( "p", runWith( c, 7 ) ).addOutputColourView( v );
	auto rg = g.compile( dev.ctx );
	auto fences = named( "vkCreateFence" );
	cx.eq( fences.size(), size_t( 1 + c.ru.maxPassCount ), "one fence for the graph and each instance" );
	std::set< uint64_t > ids; for ( auto & f : fences ) ids.insert( f.get( "handle" ) );
	cx.eq( ids.size(), fences.size(), "distinct fences" );
	std::map< uint32_t, uint64_t > cbs, fs;
	for ( uint32_t k = 0; k < 8; ++k )
	{
		c.index = rng.below( c.ru.maxPassCount ); c.enabled = rng.chance( 3, 4 );
		cx.note( "index", c.index ); cx.note( "enabled", c.enabled );
		world().trace.clear();
		if ( rng.chance( 1, 4 ) )
		{
			c.pass->resetCommandBuffer( c.index );
			auto r = named( "vkResetCommandBuffer" );
			cx.eq( r.size(), size_t( cbs.count( c.index ) ), "resets" );
			if ( !r.empty() ) { cx.eq( r[0].get( "cb" ), cbs[c.index], "command buffer reset" ); cx.require( firstOf( "vkWaitForFences" ) < firstOf( "vkResetCommandBuffer" ), "waited for first" ); cx.eq( named( "vkWaitForFences" )[0].get( "fence" ), fs[c.index], "fence of the instance" ); }
			continue;
		}
		auto idx = c.pass->reRecordCurrent();
		cx.eq( idx, c.enabled ? c.index : crg::RunnablePass::InvalidIndex, "index returned" );
		auto b = named( "vkBeginCommandBuffer" ), e = named( "vkEndCommandBuffer" ), w = named( "vkWaitForFences" ), r = named( "record" );
		cx.eq( b.size(), size_t( 1 ), "begins" ); cx.eq( e.size(), size_t( 1 ), "ends" ); cx.eq( w.size(), size_t( 1 ), "waits" ); cx.eq( r.size(), size_t( c.enabled ? 1 : 0 ), "recordings" );
		cx.eq( w[0].get( "timeout" ), ~uint64_t( 0 ), "time limit" ); cx.require( ids.count( w[0].get( "fence" ) ) && w[0].get( "fence" ) != H( VkFence( rg->getFence() ) ), "a fence of the pass" );
		cx.require( firstOf( "vkWaitForFences" ) < firstOf( "vkBeginCommandBuffer" ), "waited for before recording" );
		auto cb = b[0].get( "cb" );
		cx.eq( e[0].get( "cb" ), cb, "ended" );
		if ( c.enabled ) { cx.eq( r[0].get( "cb" ), cb, "recorded into" ); cx.eq( r[0].get( "index" ), c.index, "recorded for" ); cx.require( firstOf( "vkBeginCommandBuffer" ) < firstOf( "record" ) && firstOf( "record" ) < firstOf( "vkEndCommandBuffer" ), "between begin and end" ); }
		if ( cbs.count( c.index ) ) { cx.eq( cb, cbs[c.index], "command buffer of the instance" ); cx.eq( w[0].get( "fence" ), fs[c.index], "fence of the instance" ); }
		for ( auto & o : cbs ) if ( o.first != c.index ) { cx.require( o.second != cb, "each instance has its command buffer" ); cx.require( fs[o.first] != w[0].get( "fence" ), "each instance has its fence" ); }
		cbs[c.index] = cb; fs[c.index] = w[0].get( "fence" );
	}
	rg.reset();
	cx.eq( countAlive( "Fence" ), size_t( 0 ), "fences left" ); cx.eq( countAlive( "Semaphore" ), size_t( 0 ), "semaphores left" ); cx.eq( world().errors.size(), size_t( 0 ), "misuse" );
}
