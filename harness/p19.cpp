// What passes that draw or dispatch record
#include "pipes.hpp"
using namespace h;
CASE( draw_and_dispatch, 400 )
{
	Pipes s{ rng, uint32_t( rng.below( 3 ) ) };
	cx.note( "kind", s.kind ); cx.note( "instances", s.inst ); cx.note( "programs", s.progs ); cx.note( "indirect", s.hasIndirect ); cx.note( "index buffer", s.hasIndex );
	cx.note( "count callbacks", uint32_t( s.hasX ) + 2 * s.hasY + 4 * s.hasZ );
	crg::RecordContext rc{ s.cache };
	uint32_t rounds = rng.range( 1, 4 );
	for ( uint32_t k = 0; k < rounds; ++k )
	{
		auto cb = VkCommandBuffer( uint64_t( 0x7700 + k ) );
		auto i = rng.below( s.inst );
		cx.note( "index", i );
		auto t = s.record( rc, i, cb );
		auto cmds = only( t, { "vkCmdBindPipeline", "vkCmdBindDescriptorSets", "user:record", "user:end", "vkCmdDispatch", "vkCmdDispatchIndirect", "vkCmdDraw", "vkCmdDrawIndexed", "vkCmdDrawIndirect", "vkCmdDrawIndexedIndirect", "vkCmdBindVertexBuffers", "vkCmdBindIndexBuffer" } );
		cx.require( cmds.size() >= 4, "binds, records, draws, ends" );
		if ( cmds.size() < 4 ) return;
		cx.eq( cmds[0].fn, std::string( "vkCmdBindPipeline" ), "binds its pipeline first" );
		cx.eq( cmds[1].fn, std::string( "vkCmdBindDescriptorSets" ), "then its descriptors" );
		cx.eq( val( cmds[0], "cb" ), H( cb ), "command buffer" );
		std::vector< Rec > want;
		auto n = H( Pipes::at( s.nb, i ) );
		want.push_back( Rec{ "user:record", {} }( "cb", H( cb ) )( "index", i ) );
		std::vector< Rec > got{ cmds.begin() + 2, cmds.end() };
		if ( s.kind == 0 )
		{
			if ( n ) want.push_back( Rec{ "vkCmdDispatchIndirect", {} }( "cb", H( cb ) )( "buffer", n )( "offset", s.noff ) );
			else want.push_back( Rec{ "vkCmdDispatch", {} }( "cb", H( cb ) )( "x", s.hasX ? s.cx_ : s.gx )( "y", s.hasY ? s.cy : s.gy )( "z", s.hasZ ? s.cz : s.gz ) );
		}
		else
		{
			auto vb = s.kind == 1 ? H( Pipes::at( s.vb, i ) ) : 0;
			auto bindsV = only( got, { "vkCmdBindVertexBuffers" } );
			if ( s.kind == 2 )
			{
				cx.eq( bindsV.size(), size_t( 1 ), "the quad has vertices" );
				if ( !bindsV.empty() ) vb = val( bindsV[0], "b0" );
			}
			auto x = s.kind == 1 ? H( Pipes::at( s.ib, i ) ) : 0;
			if ( vb ) want.push_back( Rec{ "vkCmdBindVertexBuffers", {} }( "cb", H( cb ) )( "first", 0 )( "n", 1 )( "b0", vb )( "o0", 0 ) );
			if ( x ) want.push_back( Rec{ "vkCmdBindIndexBuffer", {} }( "cb", H( cb ) )( "buffer", x )( "offset", 0 )( "type", s.itype ) );
			if ( n ) want.push_back( Rec{ x ? "vkCmdDrawIndexedIndirect" : "vkCmdDrawIndirect", {} }( "cb", H( cb ) )( "buffer", n )( "offset", s.noff )( "count", 1 )( "stride", s.nstride ) );
			else if ( x ) want.push_back( Rec{ "vkCmdDrawIndexed", {} }( "cb", H( cb ) )( "indices", s.prim )( "instances", 1 )( "firstIndex", 0 )( "vertexOffset", 0 )( "firstInstance", 0 ) );
			else want.push_back( Rec{ "vkCmdDraw", {} }( "cb", H( cb ) )( "vertices", s.kind == 1 ? s.vert : 3 )( "instances", s.kind == 1 ? 1 : s.instances )( "firstVertex", 0 )( "firstInstance", 0 ) );
		}
		want.push_back( Rec{ "user:end", {} }( "cb", H( cb ) )( "index", i ) );
		cx.eq( got, want, "what is recorded" );
	}
}
