// Image memory barriers
#include "tables.hpp"
using namespace h;
namespace
{
	struct Img { crg::ImageId id; uint32_t layers, levels, depth; bool vol; VkFormat fmt; VkImage handle{}; };
	VkImageSubresourceRange covered( Img const & i, VkImageViewType t, VkImageSubresourceRange r )
	{
		if ( t == VK_IMAGE_VIEW_TYPE_3D && ( r.levelCount == 1 || r.levelCount == i.levels ) ) { r.baseArrayLayer = 0; r.layerCount = std::max( 1u, i.depth >> r.baseMipLevel ); }
		return r;
	}
}
CASE( barrier_histories, 500 )
{
	bool separate = rng.flip();
	crg::ResourceHandler handler;
	Dev dev{ separate };
	crg::ContextResourcesCache cache{ handler, dev.ctx };
	crg::RecordContext rc{ cache };
	cx.note( "separate", separate );
	std::vector< Img > imgs;
	for ( uint32_t k = 0; k < 3; ++k )
	{
		bool vol = rng.chance( 1, 3 );
		Img i{ {}, vol ? 1u : rng.range( 1, 4 ), rng.range( 1, 4 ), vol ? 1u << rng.below( 4 ) : 1u, vol, vol ? VK_FORMAT_R8G8B8A8_UNORM : rng.pick( { VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_D32_SFLOAT, VK_FORMAT_D24_UNORM_S8_UINT, VK_FORMAT_D32_SFLOAT_S8_UINT, VK_FORMAT_D16_UNORM_S8_UINT, VK_FORMAT_S8_UINT } ) };
		i.id = handler.createImageId( crg::ImageData{ "i" + std::to_string( k ), 0, vol ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D, i.fmt, { 32, 32, i.depth }, VK_IMAGE_USAGE_SAMPLED_BIT, i.levels, i.layers } );
		i.handle = cache.createImage( i.id );
		imgs.push_back( i );
	}
	Tracked tr;
	auto n = rng.range( 1, 10 );
	for ( uint32_t s = 0; s < n; ++s )
	{
		auto & i = rng.pick( imgs );
		auto want = lstate( rng.pick( layouts() ) );
		if ( rng.flip() ) want.state = { VkAccessFlags( rng.any32() ), VkPipelineStageFlags( 1u << rng.below( 14 ) ) };
		bool force = rng.chance( 1, 4 ), hasInit = rng.flip();
		auto init = hasInit ? rng.pick( layouts() ) : VK_IMAGE_LAYOUT_UNDEFINED;
		VkImageViewType t = i.vol ? VK_IMAGE_VIEW_TYPE_3D : VK_IMAGE_VIEW_TYPE_2D_ARRAY;
		VkImageSubresourceRange r{ crg::getAspectMask( i.fmt ), rng.below( i.levels ), 1, 0, 1 };
		if ( depthFmt( i.fmt ) && stencilFmt( i.fmt ) ) r.aspectMask = rng.pick( { VkImageAspectFlags( VK_IMAGE_ASPECT_DEPTH_BIT ), VkImageAspectFlags( VK_IMAGE_ASPECT_STENCIL_BIT ), VkImageAspectFlags( VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT ) } );
		r.levelCount = rng.range( 1, i.levels - r.baseMipLevel );
		if ( i.vol ) { if ( r.levelCount != i.levels ) r.levelCount = 1; }
		else { r.baseArrayLayer = rng.below( i.layers ); r.layerCount = rng.range( 1, i.layers - r.baseArrayLayer ); }
		uint32_t how = rng.below( 3 );
		if ( how == 2 ) t = VkImageViewType( i.vol ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D );
		auto cr = covered( i, t, r );
		// what is known of the range must be uniform for the outcome to be determined
		auto cur = tr.all( i.id.id, cr );
		bool uni = true; for ( auto & x : cur ) uni = uni && same( x, cur[0] );
		if ( !uni ) continue;
		crg::LayoutState from = cur.empty() || cur[0].layout == VK_IMAGE_LAYOUT_UNDEFINED ? lstate( init ) : cur[0];
		bool needed = force || ( ( from.layout != want.layout || from.state.pipelineStage != want.state.pipelineStage ) && want.layout != VK_IMAGE_LAYOUT_UNDEFINED );
		cx.in << "[img" << i.id.id << " fmt" << i.fmt << " view" << t << " aspect" << r.aspectMask << " L" << r.baseArrayLayer << "+" << r.layerCount << " M" << r.baseMipLevel << "+" << r.levelCount << " init" << init << " want" << show( want ) << ( force ? " force" : "" ) << " how" << how << "] ";
		world().trace.clear();
		auto cb = VkCommandBuffer( 0x4000 + s );
		if ( how == 0 )
		{
			auto v = handler.createViewId( crg::ImageViewData{ "v", i.id, 0, t, i.fmt, r } );
			if ( hasInit ) rc.memoryBarrier( cb, v, init, want, force ); else rc.memoryBarrier( cb, v, want, force );
		}
		else if ( how == 1 ) { if ( hasInit ) rc.memoryBarrier( cb, i.id, t, r, init, want, force ); else rc.memoryBarrier( cb, i.id, t, r, want, force ); }
		else { if ( hasInit ) rc.memoryBarrier( cb, i.id, r, init, want, force ); else rc.memoryBarrier( cb, i.id, r, want, force ); }
		auto c = cmds();
		std::vector< Rec > e;
		if ( needed )
		{
			auto er = r;
			if ( !separate && depthFmt( i.fmt ) && stencilFmt( i.fmt ) ) er.aspectMask = VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
			Rec b{ "vkCmdPipelineBarrier:image", {} };
			b( "cb", H( cb ) )( "srcStage", from.state.pipelineStage )( "dstStage", want.state.pipelineStage )( "flags", VK_DEPENDENCY_BY_REGION_BIT )( "srcAccess", from.state.access )( "dstAccess", want.state.access )( "oldLayout", from.layout )( "newLayout", want.layout )( "srcQ", VK_QUEUE_FAMILY_IGNORED )( "dstQ", VK_QUEUE_FAMILY_IGNORED )( "image", H( i.handle ) );
			range( b, er );
			e.push_back( b );
			tr.set( i.id.id, cr, want );
		}
		cx.eq( c, e, "commands issued by the barrier" );
		// the tracked states are exactly those of the history
		for ( auto & j : imgs )
			for ( uint32_t l = 0; l < ( j.vol ? 1u : j.layers ); ++l )
				for ( uint32_t k = 0; k < j.levels; ++k )
				{
					VkImageSubresourceRange q{ 1, k, 1, l, 1 };
					auto t2 = j.vol ? VK_IMAGE_VIEW_TYPE_3D : VK_IMAGE_VIEW_TYPE_2D;
					auto all = tr.all( j.id.id, covered( j, t2, q ) );
					auto got = rc.getLayoutState( j.id, t2, q );
					bool u = true; for ( auto & x : all ) u = u && same( x, all[0] );
					if ( !all.empty() && u ) cx.require( same( got, all[0] ), "tracked state after the barrier is " + show( got ) + " instead of " + show( all[0] ) );
					else if ( all.empty() ) cx.eq( got.layout, VK_IMAGE_LAYOUT_UNDEFINED, "untouched subresource" );
				}
	}
}
CASE( without_resources, 20 )
{
	crg::ResourceHandler handler;
	crg::RecordContext rc{ handler };
	auto id = handler.createImageId( crg::ImageData{ "i", 0, VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 4, 4, 1 }, VK_IMAGE_USAGE_SAMPLED_BIT } );
	auto v = handler.createViewId( crg::ImageViewData{ "v", id, 0, VK_IMAGE_VIEW_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 1, 0, 1, 0, 1 } } );
	cx.note( "l", rng.below( 8 ) );
	bool threw = false;
	try { rc.memoryBarrier( VkCommandBuffer( 1 ), v, crg::makeLayoutState( rng.pick( layouts() ) ), rng.flip() ); } catch ( crg::Exception & ) { threw = true; }
	cx.require( threw, "a barrier without device resources is reported as an error" );
}
