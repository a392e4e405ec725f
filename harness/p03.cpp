// Buffer memory barriers
#include "tables.hpp"
using namespace h;
CASE( barrier_histories, 600 )
{
	crg::ResourceHandler handler;
	Dev dev;
	crg::ContextResourcesCache cache{ handler, dev.ctx };
	crg::RecordContext rc{ cache };
	std::map< uint64_t, crg::AccessState > m;
	auto bottom = VkPipelineStageFlags( VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT );
	auto n = rng.range( 1, 12 );
	for ( uint32_t s = 0; s < n; ++s )
	{
		auto buf = VkBuffer( 0x100 + rng.below( 3 ) );
		crg::AccessState want{ rng.flip() ? VkAccessFlags( rng.any32() ) : VkAccessFlags( 1u << rng.below( 4 ) ), rng.flip() ? bottom : VkPipelineStageFlags( 1u << rng.below( 3 ) ) };
		crg::BufferSubresourceRange r{ rng.any32(), rng.any32() };
		bool force = rng.chance( 1, 4 ), init = rng.flip();
		crg::AccessState ini{ init ? VkAccessFlags( rng.any32() ) : 0u, init ? VkPipelineStageFlags( 1u << rng.below( 14 ) ) : bottom };
		cx.in << "[buf" << H( buf ) << " want " << want.access << "/" << want.pipelineStage << " range " << r.offset << "+" << r.size << ( init ? " init " + std::to_string( ini.access ) + "/" + std::to_string( ini.pipelineStage ) : "" ) << ( force ? " force" : "" ) << "] ";
		auto cb = VkCommandBuffer( 0x4000 + s );
		world().trace.clear();
		if ( rng.chance( 1, 4 ) )
		{
			rc.setAccessState( buf, r, want ); m[H( buf )] = want;
			cx.eq( cmds().size(), size_t( 0 ), "recording a state issues no command" );
		}
		else
		{
			auto it = m.find( H( buf ) );
			crg::AccessState from = it == m.end() || it->second.pipelineStage == bottom ? ini : it->second;
			bool needed = force || from.access != want.access || from.pipelineStage != want.pipelineStage;
			if ( init ) rc.memoryBarrier( cb, buf, r, ini.access, ini.pipelineStage, want, force ); else rc.memoryBarrier( cb, buf, r, want, force );
			std::vector< Rec > e;
			if ( needed )
			{
				Rec b{ "vkCmdPipelineBarrier:buffer", {} };
				b( "cb", H( cb ) )( "srcStage", from.pipelineStage )( "dstStage", want.pipelineStage )( "flags", VK_DEPENDENCY_BY_REGION_BIT )( "srcAccess", from.access )( "dstAccess", want.access )( "srcQ", VK_QUEUE_FAMILY_IGNORED )( "dstQ", VK_QUEUE_FAMILY_IGNORED )( "buffer", H( buf ) )( "offset", r.offset )( "size", r.size );
				e.push_back( b );
				m[H( buf )] = want;
			}
			cx.eq( cmds(), e, "commands issued by the barrier" );
		}
		for ( uint64_t b = 0x100; b < 0x104; ++b )
		{
			auto g = rc.getAccessState( VkBuffer( b ), { 0, VK_WHOLE_SIZE } );
			auto it = m.find( b );
			auto e = it == m.end() ? crg::AccessState{ 0u, bottom } : it->second;
			cx.require( g.access == e.access && g.pipelineStage == e.pipelineStage, "tracked state of buffer " + std::to_string( b ) + " is " + std::to_string( g.access ) + "/" + std::to_string( g.pipelineStage ) + " instead of " + std::to_string( e.access ) + "/" + std::to_string( e.pipelineStage ) );
		}
	}
}
