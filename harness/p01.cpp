// Layout states: what was recorded for a subresource is what is read back, and nothing else changes
#include "tables.hpp"
using namespace h;
namespace
{
	using Key = std::tuple< uint32_t, uint32_t, uint32_t >;      // image, layer, level
	using Model = std::map< Key, crg::LayoutState >;
	struct Img { crg::ImageId id; uint32_t layers, levels, depth; bool vol; };
	VkImageSubresourceRange covered( Img const & i, VkImageViewType t, VkImageSubresourceRange r )
	{
		if ( t == VK_IMAGE_VIEW_TYPE_3D && ( r.levelCount == 1 || r.levelCount == i.levels ) ) { r.baseArrayLayer = 0; r.layerCount = std::max( 1u, i.depth >> r.baseMipLevel ); }
		return r;
	}
	crg::LayoutState rndState( Rng & rng )
	{
		auto l = rng.pick( { VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_PRESENT_SRC_KHR } );
		return crg::LayoutState{ l, { 1u << rng.below( 17 ), VkPipelineStageFlags( 1u << rng.below( 14 ) ) } };
	}
	struct World1
	{
		crg::ResourceHandler handler;
		std::vector< Img > imgs;
		explicit World1( Rng & rng )
		{
			for ( uint32_t k = 0; k < 3; ++k )
			{
				bool vol = rng.flip();
				Img i{ {}, vol ? 1u : rng.range( 1, 6 ), rng.range( 1, 5 ), vol ? 1u << rng.below( 4 ) : 1u, vol };
				i.id = handler.createImageId( crg::ImageData{ "i", 0, vol ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 32, 32, i.depth }, VK_IMAGE_USAGE_SAMPLED_BIT, i.levels, i.layers } );
				imgs.push_back( i );
			}
		}
		void rndRange( Rng & rng, Img const & i, VkImageViewType & t, VkImageSubresourceRange & r )
		{
			t = i.vol ? VK_IMAGE_VIEW_TYPE_3D : rng.pick( { VK_IMAGE_VIEW_TYPE_2D, VK_IMAGE_VIEW_TYPE_2D_ARRAY, VK_IMAGE_VIEW_TYPE_CUBE } );
			r.aspectMask = VK_IMAGE_ASPECT_COLOR_BIT;
			r.baseMipLevel = rng.below( i.levels );
			r.levelCount = rng.range( 1, i.levels - r.baseMipLevel );
			if ( i.vol ) { if ( rng.flip() ){ r.levelCount = 1; } r.baseArrayLayer = 0; r.layerCount = 1; }
			else { r.baseArrayLayer = rng.below( i.layers ); r.layerCount = rng.range( 1, i.layers - r.baseArrayLayer ); }
		}
	};
	void record( Model & m, Img const & i, VkImageSubresourceRange const & r, crg::LayoutState const & s )
	{
		for ( uint32_t l = r.baseArrayLayer; l < r.baseArrayLayer + r.layerCount; ++l )
			for ( uint32_t k = r.baseMipLevel; k < r.baseMipLevel + r.levelCount; ++k ) m[Key{ i.id.id, l, k }] = s;
	}
	void checkRead( Ctx & cx, Model const & m, Img const & i, VkImageSubresourceRange const & r, crg::LayoutState const & got, std::string const & what )
	{
		std::vector< crg::LayoutState > tr;
		for ( uint32_t l = r.baseArrayLayer; l < r.baseArrayLayer + r.layerCount; ++l )
			for ( uint32_t k = r.baseMipLevel; k < r.baseMipLevel + r.levelCount; ++k ) { auto it = m.find( Key{ i.id.id, l, k } ); if ( it != m.end() ) tr.push_back( it->second ); }
		if ( tr.empty() ) { cx.require( got.layout == VK_IMAGE_LAYOUT_UNDEFINED && got.state.access == 0, what + ": a range of which nothing was recorded must read as undefined, got " + show( got ) ); return; }
		bool uni = true;
		for ( auto & s : tr ) uni = uni && same( s, tr[0] );
		if ( uni ) cx.require( same( got, tr[0] ), what + ": recorded " + show( tr[0] ) + ", read back " + show( got ) );
		bool any = false;
		for ( auto & s : tr )
		{
			any = any || s.layout == got.layout;
			if ( s.layout == got.layout ) cx.require( ( got.state.access & s.state.access ) == s.state.access, what + ": accesses of a subresource in the layout read are lost" );
		}
		cx.require( any, what + ": layout read belongs to no subresource of the range, got " + show( got ) );
	}
	void sweep( Ctx & cx, World1 & w, Model const & m, std::function< crg::LayoutState( crg::ImageId, VkImageViewType, VkImageSubresourceRange ) > rd )
	{
		for ( auto & i : w.imgs )
			for ( uint32_t k = 0; k < i.levels; ++k )
				for ( uint32_t l = 0; l < i.layers; ++l )
				{
					VkImageSubresourceRange r{ 1, k, 1, l, 1 };
					auto t = i.vol ? VK_IMAGE_VIEW_TYPE_3D : VK_IMAGE_VIEW_TYPE_2D;
					std::ostringstream o; o << "image " << i.id.id << " layer " << l << " level " << k << ( i.vol ? " (3D, depth " + std::to_string( i.depth ) + ")" : "" );
					checkRead( cx, m, i, covered( i, t, r ), rd( i.id, t, r ), o.str() );
				}
	}
}
CASE( handler_history, 250 )
{
	World1 w{ rng };
	crg::LayerLayoutStatesHandler hd, other;
	Model m, mo;
	auto n = rng.range( 1, 12 );
	cx.note( "ops", n );
	for ( uint32_t s = 0; s < n; ++s )
	{
		auto & i = rng.pick( w.imgs );
		VkImageViewType t; VkImageSubresourceRange r; w.rndRange( rng, i, t, r );
		auto st = rndState( rng );
		bool view = rng.flip(), toOther = rng.chance( 1, 4 );
		cx.in << "[" << ( toOther ? "other " : "" ) << "img" << i.id.id << ( i.vol ? "/3D" : "" ) << " d" << i.depth << " L" << r.baseArrayLayer << "+" << r.layerCount << " M" << r.baseMipLevel << "+" << r.levelCount << "/" << i.levels << " " << show( st ) << "] ";
		auto & dst = toOther ? other : hd;
		if ( view ) { auto v = w.handler.createViewId( crg::ImageViewData{ "v", i.id, 0, t, VK_FORMAT_R8G8B8A8_UNORM, r } ); dst.setLayoutState( v, st ); auto g = dst.getLayoutState( v ); record( toOther ? mo : m, i, covered( i, t, r ), st ); cx.require( same( g, st ), "read back through the same view: recorded " + show( st ) + ", read " + show( g ) ); }
		else { dst.setLayoutState( i.id, t, r, st ); record( toOther ? mo : m, i, covered( i, t, r ), st ); auto g = dst.getLayoutState( i.id, t, r ); cx.require( same( g, st ), "read back over the same range: recorded " + show( st ) + ", read " + show( g ) ); }
		VkImageViewType t2; VkImageSubresourceRange r2; auto & i2 = rng.pick( w.imgs ); w.rndRange( rng, i2, t2, r2 );
		checkRead( cx, m, i2, covered( i2, t2, r2 ), hd.getLayoutState( i2.id, t2, r2 ), "mixed read" );
	}
	sweep( cx, w, m, [&]( crg::ImageId i, VkImageViewType t, VkImageSubresourceRange r ){ return hd.getLayoutState( i, t, r ); } );
	sweep( cx, w, mo, [&]( crg::ImageId i, VkImageViewType t, VkImageSubresourceRange r ){ return other.getLayoutState( i, t, r ); } );
	// merging: images already known keep their states
	std::set< uint32_t > knownImgs; for ( auto & p : hd.images ) knownImgs.insert( p.first );
	hd.addStates( other );
	for ( auto & p : mo ) if ( !knownImgs.count( std::get< 0 >( p.first ) ) ) m[p.first] = p.second;
	sweep( cx, w, m, [&]( crg::ImageId i, VkImageViewType t, VkImageSubresourceRange r ){ return hd.getLayoutState( i, t, r ); } );
	sweep( cx, w, mo, [&]( crg::ImageId i, VkImageViewType t, VkImageSubresourceRange r ){ return other.getLayoutState( i, t, r ); } );
}
CASE( record_context_history, 150 )
{
	World1 w{ rng };
	Dev dev;
	crg::ContextResourcesCache cache{ w.handler, dev.ctx };
	crg::RecordContext rc{ cache };
	Model m;
	auto n = rng.range( 1, 10 );
	cx.note( "ops", n );
	for ( uint32_t s = 0; s < n; ++s )
	{
		auto & i = rng.pick( w.imgs );
		VkImageViewType t; VkImageSubresourceRange r; w.rndRange( rng, i, t, r );
		auto st = rndState( rng );
		cx.in << "[img" << i.id.id << ( i.vol ? "/3D" : "" ) << " d" << i.depth << " L" << r.baseArrayLayer << "+" << r.layerCount << " M" << r.baseMipLevel << "+" << r.levelCount << "/" << i.levels << " " << show( st ) << "] ";
		if ( rng.flip() ) rc.setLayoutState( w.handler.createViewId( crg::ImageViewData{ "v", i.id, 0, t, VK_FORMAT_R8G8B8A8_UNORM, r } ), st );
		else rc.setLayoutState( i.id, t, r, st );
		record( m, i, covered( i, t, r ), st );
	}
	sweep( cx, w, m, [&]( crg::ImageId i, VkImageViewType t, VkImageSubresourceRange r ){ return rc.getLayoutState( i, t, r ); } );
	crg::LayerLayoutStatesHandler hd;
	Model mn;
	auto & i = rng.pick( w.imgs );
	VkImageViewType t; VkImageSubresourceRange r; w.rndRange( rng, i, t, r );
	auto st = rndState( rng );
	hd.setLayoutState( i.id, t, r, st ); record( mn, i, covered( i, t, r ), st );
	rc.setNextPipelineState( { 0, 0 }, hd.images );
	sweep( cx, w, mn, [&]( crg::ImageId i, VkImageViewType t, VkImageSubresourceRange r ){ return rc.getNextLayoutState( i, t, r ); } );
	sweep( cx, w, m, [&]( crg::ImageId i, VkImageViewType t, VkImageSubresourceRange r ){ return rc.getLayoutState( w.handler.createViewId( crg::ImageViewData{ "v", i, 0, t, VK_FORMAT_R8G8B8A8_UNORM, r } ) ); } );
}
CASE( free_functions, 400 )
{
	crg::LayerLayoutStates R;
	std::map< std::pair< uint32_t, uint32_t >, crg::LayoutState > m;
	auto n = rng.range( 1, 6 );
	for ( uint32_t s = 0; s < n; ++s )
	{
		uint32_t base = rng.pick( { 0u, 0u, 5u, 0xFFFFFFF0u } );
		VkImageSubresourceRange r{ 1, rng.below( 6 ), rng.range( 0, 6 ), base + rng.below( 8 ), rng.range( 0, 8 ) };
		auto st = rndState( rng );
		cx.in << "[L" << r.baseArrayLayer << "+" << r.layerCount << " M" << r.baseMipLevel << "+" << r.levelCount << " " << show( st ) << "] ";
		auto & ret = crg::addSubresourceRangeLayout( R, r, st );
		cx.require( same( ret, st ), "the recorded state is returned" );
		for ( uint32_t l = 0; l < r.layerCount; ++l ) for ( uint32_t k = 0; k < r.levelCount; ++k ) m[{ r.baseArrayLayer + l, r.baseMipLevel + k }] = st;
		for ( auto & p : m )
		{
			auto g = crg::getSubresourceRangeLayout( R, VkImageSubresourceRange{ 1, p.first.second, 1, p.first.first, 1 } );
			cx.require( same( g, p.second ), "recorded " + show( p.second ) + " for layer " + std::to_string( p.first.first ) + " level " + std::to_string( p.first.second ) + ", read " + show( g ) );
		}
		size_t c = 0; for ( auto & p : R ) c += p.second.size();
		cx.eq( c, m.size(), "number of tracked subresources" );
	}
}
